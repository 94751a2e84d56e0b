//! Vehicle: tables, aerodynamics, engines, auto-throttle, mass.

use super::*;
use crate::model::{self, add, dot, mul, mv, Env, Table};
use crate::sut::{norm, Outcome, Snap};

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C12",
            c12,
            "all table shapes 1-D 0..5, 2-D (0..3)x(0..4), 3-D (1..3)^3, uneven axes, every cell, node, both extrapolation sides and corner; three coefficient slots at once; all length-3 replacement histories over 8 tables per slot; nodes from 1e-9 to 1e3 apart; any of three variables on each axis, repeated or not; on and beside every node of tables of 9 to 150 nodes",
            "3-D shapes up to 4x4x4, 3 query points per cell and axis, length-4 histories",
        ),
        reg(
            "C13",
            c13,
            "26 airspeed directions and rest x 14 attitudes x 3 launch frames x 8 subsets of coefficient tables x 3 coefficient sets (constant, alpha-dependent, alpha/mach-dependent) x atmosphere on/off; winds of 2e-5 to 4e4 m/s x 98 directions x 3 attitudes",
            "98 directions x 30 attitudes",
        ),
        reg(
            "C14",
            c14,
            "all ordered lists of up to 3 engines out of 5 x 5 pressures; 24x24 incidence grid; all length-3 histories over 6 engine settings; up to 257 engines; incidences beyond a turn and next to nothing; thrusts from 0 to 1e12 N, specific impulses from 1e-9 to 1e9 s, exit areas from 0 to 1e5 m2",
            "lists of up to 4 engines; 48x48 incidences; length-5 histories",
        ),
        reg(
            "C15",
            c15,
            "3 thrust directions x 11 angles x 2 planes x 12 aero/limit ratios x 9 thrust/limit ratios x 4 limits x air pressure on/off; all length-3 histories over 6 limits; burns of up to 24 steps at 4 limits, observed at every step; masses from 1e-8 to 1e6 kg; thrust to 26 sides",
            "23 angles x 4 planes x 20 x 15 ratios; length-5 histories",
        ),
        reg(
            "C20",
            c20,
            "all length-3 histories over 4 structure x 4 propellant x 4 engine settings, each phase burning for 2 s; 864 throttled burns with throttles from 1e-6 to 0.95",
            "length-4 histories over 3x3x3 settings, 3 durations",
        ),
    ]
}

/// Coefficients recovered from the reported force: drag, lift, side.
fn coeffs(s: &Snap, area: f64) -> V3 {
    let k = 1. / (s.q * area);
    let (ca, cn, cy) = (-s.aero[0] * k, -s.aero[2] * k, s.aero[1] * k);
    let (sa, co) = s.alpha.sin_cos();
    [ca * co + cn * sa, cn * co - ca * sa, cy]
}

const AXIS: [&str; 3] = ["x", "y", "z"];
const VARS: [&str; 3] = ["velocity_atmosphere1", "velocity_atmosphere2", "velocity_atmosphere3"];

/// Uneven nodes, both signs.
fn nodes(axis: usize, n: usize) -> Vec<f64> {
    let all = [[-70., -20., 15., 90., 130.], [-33., 5., 21., 140., 150.], [12., 40., 130., 150., 300.]];
    all[axis][..n].to_vec()
}

/// A table of the given shape with all different entries.
fn table(shape: &[usize], rot: usize, salt: usize) -> Value {
    let mut t = json!({});
    for (i, &n) in shape.iter().enumerate() {
        t[AXIS[i]] = json!([VARS[(i + rot) % 3], nodes((i + rot) % 3, n)]);
    }
    fn data(shape: &[usize], k: &mut usize, salt: usize) -> Value {
        if shape.is_empty() {
            *k += 1;
            // no linear relation between the entries
            let x = (*k * 7919 + salt * 104729) % 1009;
            return json!(x as f64 / 100. - 4. + ((*k * *k) % 13) as f64);
        }
        Value::Array((0..shape[0]).map(|_| data(&shape[1..], k, salt)).collect())
    }
    t["data"] = data(shape, &mut 0, salt);
    t
}

fn queries(axis: usize, n: usize, dense: bool) -> Vec<f64> {
    let v = nodes(axis, n);
    if v.is_empty() {
        return vec![7.];
    }
    let mut q = vec![v[0] - 11., *v.last().unwrap() + 23.];
    if dense {
        q.extend([v[0] - 300., v[0] - 1e-3, *v.last().unwrap() + 1e-3, *v.last().unwrap() + 400.]);
    }
    for w in v.windows(2) {
        q.push(w[0] + 0.3 * (w[1] - w[0]));
        if dense {
            q.push(w[0] + 0.9 * (w[1] - w[0]));
            q.push(w[0] + 1e-4);
        }
    }
    q.extend(v);
    q
}

const AREA: f64 = 3.;

/// Probe with a given velocity with respect to the air.
fn flying(va: V3) -> Value {
    let mut c = with(probe(init(40., 70., 20., 5e3)), "planet_model", custom(RE, RE, 1e6, [0.; 3], 0.));
    set(&mut c, "atmosphere", json!({"enabled": true, "wind": [-va[0], -va[1], -va[2]]}));
    set(&mut c, "vehicle.reference_area", json!(AREA));
    c
}

fn tables_ok(ctx: &mut Ctx, s: &Snap, t: &[Option<Value>; 3]) {
    let got = coeffs(s, AREA);
    for (k, n) in ["drag coefficient", "lift coefficient", "side force coefficient"].iter().enumerate() {
        let want = t[k].as_ref().and_then(|t| Table::from_json(t).at(&|n| s.var(n))).unwrap_or(0.);
        ctx.eq(n, got[k], want, 1e-7, 1e-7);
    }
}

const SLOTS: [&str; 3] = ["vehicle.drag_coeff", "vehicle.lift_coeff", "vehicle.side_force_coeff"];

pub fn c12(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let mut shapes: Vec<Vec<usize>> = (0..=5).map(|n| vec![n]).collect();
    for a in 0..=3 {
        for b in 0..=4 {
            if a > 0 || b == 2 {
                shapes.push(vec![a, b]);
            }
        }
    }
    let top = if th { 4 } else { 3 };
    for a in 1..=top {
        for b in 1..=top {
            for c in 1..=top {
                shapes.push(vec![a, b, c]);
            }
        }
    }
    for sh in &shapes {
        let n: Vec<usize> = (0..3).map(|i| sh.get(i).copied().unwrap_or(0)).collect();
        for rot in 0..3 {
            let dense = th || sh.len() == 1;
            let mut qs: Vec<Vec<f64>> = vec![vec![]; 3];
            for i in 0..3 {
                qs[(i + rot) % 3] = queries((i + rot) % 3, n[i], dense && sh.len() < 3);
            }
            for &x in &qs[0] {
                for &y in &qs[1] {
                    for &z in &qs[2] {
                        if !ctx.next() {
                            continue;
                        }
                        let mut c = flying([x, y, z]);
                        let mut ts: [Option<Value>; 3] = [None, None, None];
                        for k in 0..3 {
                            let mut t = table(sh, rot, k);
                            if k == 1 {
                                set(&mut t, "interpolator", json!("linear"));
                            }
                            set(&mut c, SLOTS[k], t.clone());
                            ts[k] = Some(t);
                        }
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        tables_ok(ctx, &s, &ts);
                    }
                }
            }
        }
    }
    // exact hits: the mass is met to the last bit
    for n in 2..=5usize {
        for x in [500., 1000., 1000. * (1. + f64::EPSILON), 1000. * (1. - f64::EPSILON), 1500., 2000., 2200., 3000., 5000., 6000.] {
            for data in [[1., 2., 4., 8., 16.], [5., -3., 7., 7., -20.]] {
                if !ctx.next() {
                    continue;
                }
                let mut c = flying([100., 20., -30.]);
                set(&mut c, "vehicle.structure_mass", json!(x));
                let t = json!({"x": ["mass", &[1000., 1500., 2200., 3000., 5000.][..n]], "data": data[..n]});
                set(&mut c, SLOTS[n % 3], t.clone());
                let mut ts = [None, None, None];
                ts[n % 3] = Some(t);
                let Some(s) = ctx.done(&json!([c])) else { continue };
                tables_ok(ctx, &s, &ts);
            }
        }
    }
    // the same variable on several axes
    for sh in [vec![2, 2], vec![3, 2], vec![2, 4], vec![2, 2, 2], vec![3, 3, 3], vec![4, 2, 3]] {
        for code in 0..3usize.pow(sh.len() as u32) {
            let on: Vec<usize> = (0..sh.len()).map(|i| code / 3usize.pow(i as u32) % 3).collect();
            let qs: Vec<Vec<f64>> = (0..3).map(|v| if on.contains(&v) { queries(v, 4, th) } else { vec![7.] }).collect();
            for &x in &qs[0] {
                for &y in &qs[1] {
                    for &z in &qs[2] {
                        if !ctx.next() {
                            continue;
                        }
                        let mut c = flying([x, y, z]);
                        let mut ts: [Option<Value>; 3] = [None, None, None];
                        for k in 0..3 {
                            let mut t = table(&sh, 0, k);
                            for (i, &v) in on.iter().enumerate() {
                                // nodes of its own on every axis
                                let n: Vec<f64> = nodes(v, sh[i]).iter().map(|x| x + 9. * i as f64).collect();
                                t[AXIS[i]] = json!([VARS[v], n]);
                            }
                            set(&mut c, SLOTS[k], t.clone());
                            ts[k] = Some(t);
                        }
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        tables_ok(ctx, &s, &ts);
                    }
                }
            }
        }
    }
    // nodes close together and far apart
    for sh in [vec![2], vec![5], vec![3, 2], vec![2, 4], vec![2, 3, 2]] {
        for rot in 0..3 {
            for scale in [1e-9, 1e-7, 3e-6, 1e-4, 1e-2, 30., 1e3] {
                for which in 0..sh.len() {
                    let ax = (which + rot) % 3;
                    for q in queries(ax, sh[which], true) {
                        if !ctx.next() {
                            continue;
                        }
                        let mut va = [37., 11., 61.];
                        va[ax] = q * scale;
                        let mut c = flying(va);
                        let mut ts: [Option<Value>; 3] = [None, None, None];
                        for k in 0..3 {
                            let mut t = table(&sh, rot, k);
                            for x in t[AXIS[which]][1].as_array_mut().unwrap() {
                                *x = json!(x.as_f64().unwrap() * scale);
                            }
                            set(&mut c, SLOTS[k], t.clone());
                            ts[k] = Some(t);
                        }
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        tables_ok(ctx, &s, &ts);
                    }
                }
            }
        }
    }
    // on, before and behind every node of long tables
    for n in [9usize, 17, 33, 70, 150] {
        for axis in 0..4 {
            for k in 0..n {
                for off in [-0.25, 0., 0.25] {
                    let at = |k: usize| (k * k) as f64 / 4. + k as f64 - 30.;
                    if axis == 3 && at(k) + off < 0. || !ctx.next() {
                        continue;
                    }
                    let mut va = [37., 11., 61.];
                    // (the propellant mass is met exactly)
                    let var = [VARS[0], VARS[1], VARS[2], "propellant_mass"][axis];
                    let mut c;
                    if axis < 3 {
                        va[axis] = at(k) + off;
                        c = flying(va);
                    } else {
                        c = flying(va);
                        set(&mut c, "vehicle.propellant_mass", json!(at(k) + off));
                        set(&mut c, "vehicle.structure_mass", json!(4096.0));
                    }
                    let row: Vec<f64> = (0..n).map(at).collect();
                    let val: Vec<f64> = (0..n).map(|i| ((i * 37 + 11 * axis) % 23) as f64 - 7.).collect();
                    let two: Vec<Vec<f64>> = val.iter().map(|v| vec![*v, v + 3.]).collect();
                    let t = json!({"x": [var, row], "data": val});
                    let u = json!({"x": [var, row], "y": [VARS[(axis + 1) % 3], [0.0, 64.0]], "data": two});
                    let w = json!({"x": [VARS[(axis + 1) % 3], [0.0, 64.0]], "y": [var, row], "data": [val, val.iter().rev().collect::<Vec<_>>()]});
                    let ts = [Some(t), Some(u), Some(w)];
                    for i in 0..3 {
                        set(&mut c, SLOTS[i], ts[i].clone().unwrap());
                    }
                    let Some(s) = ctx.done(&json!([c])) else { continue };
                    tables_ok(ctx, &s, &ts);
                }
            }
        }
    }
    // Replacing tables at phase boundaries
    let empty = json!({"x": ["time", []], "data": []});
    let opts = [
        None,
        Some(Value::Null),
        Some(table(&[3], 0, 1)),
        Some(table(&[2, 3], 1, 2)),
        Some(table(&[2, 3, 2], 2, 3)),
        Some(empty.clone()),
        Some(konst(2.5)),
        Some(json!({"x": ["time", []], "y": ["mass", []], "data": []})),
    ];
    let len: u32 = if th { 4 } else { 3 };
    for slot in 0..3 {
        for code in 0..8usize.pow(len) {
            if !ctx.next() {
                continue;
            }
            let mut phases = vec![flying([60., -70., 45.])];
            let mut ts: [Option<Value>; 3] = [None, None, None];
            ts[(slot + 1) % 3] = Some(konst(-1.25));
            set(&mut phases[0], SLOTS[(slot + 1) % 3], konst(-1.25));
            for k in 0..len {
                if k > 0 {
                    phases.push(blink(json!({})));
                }
                let o = &opts[code / 8usize.pow(k) % 8];
                if let Some(v) = o {
                    set(phases.last_mut().unwrap(), SLOTS[slot], v.clone());
                    if !v.is_null() {
                        ts[slot] = Some(v.clone());
                    }
                }
            }
            let Some(s) = ctx.done(&json!(phases)) else { continue };
            tables_ok(ctx, &s, &ts);
        }
    }
    wide::explore(ctx, &[wide::Axis::Altitude, wide::Axis::Air, wide::Axis::Area, wide::Axis::Drag, wide::Axis::Lift, wide::Axis::Mass, wide::Axis::History], &mut |ctx, v| aero_wide(ctx, v));
}

/// All directions with components in -1..1, optionally the finer set.
pub fn directions(fine: bool) -> Vec<V3> {
    let n: i32 = if fine { 2 } else { 1 };
    let mut o = vec![];
    for x in -n..=n {
        for y in -n..=n {
            for z in -n..=n {
                if [x, y, z] != [0; 3] && (!fine || x.abs().max(y.abs()).max(z.abs()) == n) {
                    o.push([x as f64, y as f64, z as f64]);
                }
            }
        }
    }
    o
}

/// Euler angles in degrees (roll, yaw, pitch).
pub fn attitudes(fine: bool) -> Vec<V3> {
    let mut o = vec![
        [0., 0., 0.],
        [90., 0., 0.],
        [0., 90., 0.],
        [0., 0., 90.],
        [180., 0., 0.],
        [0., 180., 0.],
        [0., 0., 180.],
        [0., 0., -90.],
        [30., 0., -40.],
        [10., 20., 30.],
        [-120., 50., -70.],
        [200., -100., 340.],
        [45., -45., 0.],
        [0., 35., 125.],
    ];
    if fine {
        for a in [-150., 60.] {
            for b in [-80., 15.] {
                for c in [-170., -10., 75., 260.] {
                    o.push([a, b, c]);
                }
            }
        }
    }
    o
}

/// Steering which gives fixed Euler angles (degrees) at a known mass.
pub fn fixed_attitude(c: &mut Value, mass: f64, e: V3) {
    for (k, n) in ["roll", "yaw", "pitch"].iter().enumerate() {
        set(c, &format!("steering.{n}"), json!(["mass", [e[k] / mass, 0.0, 0.0]]));
    }
}

/// The aerodynamic force, given the reported angle of attack and pressure.
fn aero_wide(ctx: &mut Ctx, v: &wide::Seen) {
    let s = v.s;
    if s.q == 0. {
        ctx.eqv("aerodynamic force without dynamic pressure", s.aero, [0.; 3], 0., 0.);
        return;
    }
    let c: Vec<f64> = (0..3).map(|i| v.env.tables[i].as_ref().and_then(|t| t.at(&|n| s.var(n))).unwrap_or(0.)).collect();
    if c.iter().any(|c| !c.is_finite()) {
        ctx.skipped += 1;
        return;
    }
    let (sa, ca) = s.alpha.sin_cos();
    let k = s.q * v.env.area;
    let want = [-k * (ca * c[0] - sa * c[1]), k * c[2], -k * (sa * c[0] + ca * c[1])];
    let scale = k.abs() * c.iter().map(|c| c.abs()).sum::<f64>();
    ctx.eqv("aerodynamic force", s.aero, want, 1e-8, 1e-9 * scale);
}

fn same_angle(a: f64, b: f64, tol: f64) -> bool {
    let d = (a - b).rem_euclid(2. * std::f64::consts::PI);
    d < tol || d > 2. * std::f64::consts::PI - tol
}

pub fn c13(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let mut dirs = directions(th);
    dirs.push([0.; 3]);
    let sets: [[Value; 3]; 3] = [
        [konst(0.7), konst(-1.9), konst(0.4)],
        [
            json!({"x": ["alpha", [-3.0, -1.0, 0.1, 2.0]], "data": [0.1, 2.0, 0.5, 3.0]}),
            json!({"x": ["alpha", [-2.0, 0.5, 3.0]], "data": [-1.0, 0.2, 1.1]}),
            json!({"x": ["alpha", [0.0, 1.0]], "data": [0.3, 0.8]}),
        ],
        [
            json!({"x": ["alpha", [-1.0, 1.0]], "y": ["mach_number", [0.2, 1.0, 3.0]], "data": [[0.3, 0.9, 0.4], [1.0, 2.0, 0.7]]}),
            json!({"x": ["mach_number", [0.0, 2.0]], "y": ["alpha", [-1.0, 0.0, 1.5]], "data": [[0.1, -0.2, 0.5], [0.9, 0.3, -0.4]]}),
            json!({"x": ["dynamic_pressure", [0.0, 1e4]], "data": [-0.3, 0.6]}),
        ],
    ];
    for (li, launch) in [init(0., 0., 0., 3e3), init(35., -60., 110., 1.2e4), init(-80., 170., -20., 200.)].iter().enumerate() {
        for e in attitudes(th) {
            for d in &dirs {
                for (si, set_) in sets.iter().enumerate() {
                    for mask in 0..8usize {
                        for on in [true, false] {
                            if !on && mask != 7 {
                                continue;
                            }
                            if !ctx.next() {
                                continue;
                            }
                            let speed = 140. + 60. * si as f64;
                            let mut c = with(probe(launch.clone()), "planet_model", custom(RE, RE, 1e6, [0.; 3], 0.));
                            set(&mut c, "atmosphere", json!({"enabled": on, "wind": [-speed * d[0], -speed * d[1], -speed * d[2]]}));
                            set(&mut c, "vehicle.reference_area", json!(AREA));
                            fixed_attitude(&mut c, 1000., e);
                            for k in 0..3 {
                                if mask >> k & 1 == 1 {
                                    set(&mut c, SLOTS[k], set_[k].clone());
                                } else if (k + mask + si) % 2 == 0 {
                                    set(&mut c, SLOTS[k], json!({"x": ["time", []], "data": []}));
                                }
                            }
                            let Some(s) = ctx.done(&json!([c])) else { continue };
                            let mut env = Env::default();
                            env.init(&launch.clone());
                            let vb = mv(&env.i2b(s.euler), s.va);
                            let inplane = (vb[0] * vb[0] + vb[2] * vb[2]).sqrt();
                            if norm(s.va) < 1e-6 {
                                ctx.eq("angle of attack at rest", s.alpha, 0., 0., 0.);
                            } else if inplane > 1e-3 {
                                let want = vb[2].atan2(vb[0]);
                                ctx.check("angle of attack", same_angle(s.alpha, want, 1e-8), || {
                                    format!("got {}, expected {want}", s.alpha)
                                });
                            }
                            if !on {
                                ctx.eqv("aerodynamic force without atmosphere", s.aero, [0.; 3], 0., 0.);
                                continue;
                            }
                            let mut co = [0.; 3];
                            for k in 0..3 {
                                if mask >> k & 1 == 1 {
                                    co[k] = Table::from_json(&set_[k]).at(&|n| s.var(n)).unwrap();
                                }
                            }
                            let (sa, ca) = s.alpha.sin_cos();
                            let k = s.q * AREA;
                            let want = [-k * (ca * co[0] - sa * co[1]), k * co[2], -k * (sa * co[0] + ca * co[1])];
                            ctx.eqv("aerodynamic force", s.aero, want, 1e-9, 1e-12);
                            ctx.eqv("aerodynamic acceleration", s.vacc, mul(1. / s.m, s.aero), 1e-9, 1e-12);
                            let _ = li;
                        }
                    }
                }
            }
        }
    }
    // From a crawl to meteors: the wind alone
    for speed in [2e-5, 3e-4, 8e-3, 0.09, 0.9, 3., 12., 900., 5e3, 4e4] {
        for d in directions(true) {
            for e in [[0., 0., 0.], [0.4, -0.7, 2.6], [-2.9, 1.2, -0.3]] {
                if !ctx.next() {
                    continue;
                }
                let launch = init(20., -60., 110., 1.2e4);
                let mut c = with(probe(launch.clone()), "planet_model", custom(RE, RE, 1e-6, [0.; 3], 0.));
                set(&mut c, "atmosphere", json!({"enabled": true, "wind": mul(-speed, d)}));
                set(&mut c, "vehicle.reference_area", json!(1e-3));
                fixed_attitude(&mut c, 1e6, e);
                let co = [0.7, -1.9, 0.4];
                for k in 0..3 {
                    set(&mut c, SLOTS[k], konst(co[k]));
                }
                let Some(s) = ctx.done(&json!([c])) else { continue };
                let mut env = Env::default();
                env.init(&launch);
                let vb = mv(&env.i2b(s.euler), s.va);
                let inplane = (vb[0] * vb[0] + vb[2] * vb[2]).sqrt();
                if inplane < 1e-5 {
                    continue;
                }
                let want = vb[2].atan2(vb[0]);
                ctx.check("angle of attack", same_angle(s.alpha, want, 1e-8), || format!("got {}, expected {want}", s.alpha));
                let (sa, ca) = s.alpha.sin_cos();
                let k = s.q * 1e-3;
                let want = [-k * (ca * co[0] - sa * co[1]), k * co[2], -k * (sa * co[0] + ca * co[1])];
                ctx.eqv("aerodynamic force", s.aero, want, 1e-9, 1e-30);
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Air, wide::Axis::Area, wide::Axis::Drag, wide::Axis::Lift, wide::Axis::Steering, wide::Axis::Mass], &mut |ctx, v| {
        let s = v.s;
        let vb = mv(&v.env.i2b(s.euler), s.va);
        let inplane = (vb[0] * vb[0] + vb[2] * vb[2]).sqrt();
        if inplane > 1e-3 && inplane > 1e-6 * norm(s.va) {
            let want = vb[2].atan2(vb[0]);
            // huge angles cost digits
            let tol = 1e-8 + 1e-13 * s.euler.iter().map(|e| e.abs()).sum::<f64>() * norm(s.va) / inplane;
            ctx.check("angle of attack", same_angle(s.alpha, want, tol), || format!("got {}, expected {want}", s.alpha));
        }
        aero_wide(ctx, v);
        ctx.eqv("sensed acceleration", s.vacc, mul(1. / s.m, add(s.aero, s.thrust)), 1e-9, 1e-12 * (norm(s.aero) + norm(s.thrust)) / s.m);
    });
}

fn engines_ok(ctx: &mut Ctx, s: &Snap, engines: &[Value]) {
    let mut f = [0.; 3];
    let mut mdot = 0.;
    let mut scale = 0.;
    for e in engines {
        let g = |k: &str| e[k].as_f64().unwrap();
        let (ip, iy) = (e["incidence"][0].as_f64().unwrap(), e["incidence"][1].as_f64().unwrap());
        let t = g("thrust_vac") - g("exit_area") * s.p;
        f = add(f, mul(t, [iy.cos() * ip.cos(), iy.sin(), iy.cos() * ip.sin()]));
        mdot -= g("thrust_vac") / (g("isp_vac") * model::G0);
        scale += t.abs();
    }
    ctx.eqv("thrust", s.thrust, f, 0., 1e-10 * scale);
    ctx.eq("mass flow", s.mdot, mdot, 1e-10, 0.);
    ctx.eq("throttle", s.throttle, 1., 0., 0.);
    ctx.eqv("acceleration by thrust", s.vacc, mul(1. / s.m, f), 0., 1e-10 * scale / s.m);
}

pub fn c14(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let types = [
        engine([0., 0.], 1e5, 300., 0.),
        engine([0.1, -0.2], 3e4, 450., 0.4),
        engine([-0.5, 0.9], 2e6, 282., 2.),
        engine([2.5, 0.3], 7e3, 220., 0.05),
        engine([0., 0.], 1e4, 500., 1.5),
    ];
    let air: [Option<f64>; 5] = [None, Some(0.), Some(8e3), Some(3e4), Some(1.2e5)];
    let maxlen = if th { 4 } else { 3 };
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = lists.clone();
    for _ in 0..maxlen {
        layer = layer.iter().flat_map(|l| (0..5).map(move |k| [l.clone(), vec![k]].concat())).collect();
        lists.extend(layer.clone());
    }
    for l in &lists {
        for a in &air {
            if !ctx.next() {
                continue;
            }
            let es: Vec<Value> = l.iter().map(|&k| types[k].clone()).collect();
            let mut c = probe(init(12., 34., 56., a.unwrap_or(1e3)));
            set(&mut c, "atmosphere.enabled", json!(a.is_some()));
            set(&mut c, "vehicle.engines", json!(es));
            let Some(s) = ctx.done(&json!([c])) else { continue };
            engines_ok(ctx, &s, &es);
        }
    }
    let n = if th { 48 } else { 24 };
    for a in 0..n {
        for b in 0..n {
            if !ctx.next() {
                continue;
            }
            let ang = |k: usize| (k as f64 * 360. / n as f64 - 180.).to_radians();
            let es = vec![engine([ang(a), ang(b)], 4e4, 310., 0.3)];
            let mut c = probe(init(12., 34., 56., 2e3));
            set(&mut c, "atmosphere.enabled", json!(true));
            set(&mut c, "vehicle.engines", json!(es));
            let Some(s) = ctx.done(&json!([c])) else { continue };
            engines_ok(ctx, &s, &es);
        }
    }
    // many engines
    for n in [4usize, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 27, 31, 32, 33, 64, 65, 100, 129, 257] {
        for a in &air {
            if !ctx.next() {
                continue;
            }
            let es: Vec<Value> = (0..n)
                .map(|k| {
                    let x = k as f64;
                    engine([0.9 * (1.3 * x).sin(), 0.7 * (2.1 * x).cos()], 1e3 * (1. + x), 200. + 3. * x, 0.01 * (k % 7) as f64)
                })
                .collect();
            let mut c = probe(init(12., 34., 56., a.unwrap_or(1e3)));
            set(&mut c, "atmosphere.enabled", json!(a.is_some()));
            set(&mut c, "vehicle.engines", json!(es));
            let Some(s) = ctx.done(&json!([c])) else { continue };
            engines_ok(ctx, &s, &es);
        }
    }
    // beyond a turn, and next to nothing
    let far = [-100., -7.1, -5., -3.3, -1e-3, -1e-7, 0., 1e-7, 1e-3, 3.3, 4.9, 6.5, 12.7, 1e3];
    for a in far {
        for b in far {
            if !ctx.next() {
                continue;
            }
            let es = vec![engine([a, b], 4e4, 310., 0.3), engine([b, 0.1], 1e3, 310., 0.)];
            let mut c = probe(init(12., 34., 56., 2e3));
            set(&mut c, "atmosphere.enabled", json!(true));
            set(&mut c, "vehicle.engines", json!(es));
            let Some(s) = ctx.done(&json!([c])) else { continue };
            engines_ok(ctx, &s, &es);
        }
    }
    // weak, strong, thirsty and thrifty
    for t in [0., 1e-9, 1e-3, 0.5, 1e3, 1e7, 1e12] {
        for isp in [1e-9, 1e-3, 0.7, 20., 1e4, 1e9] {
            for area in [0., 1e-9, 1e-4, 3., 1e5] {
                for air in [false, true] {
                    if !ctx.next() {
                        continue;
                    }
                    let es = vec![engine([0.1, -0.2], t, isp, area), engine([0.2, 0.1], 1e-3 * t, 310., 0.)];
                    let mut c = probe(init(12., 34., 56., 2e3));
                    set(&mut c, "atmosphere.enabled", json!(air));
                    set(&mut c, "vehicle.structure_mass", json!(1e15));
                    set(&mut c, "vehicle.propellant_mass", json!(1e16));
                    set(&mut c, "vehicle.engines", json!(es));
                    let Some(s) = ctx.done(&json!([c])) else { continue };
                    engines_ok(ctx, &s, &es);
                }
            }
        }
    }
    let opts: [Option<Value>; 6] = [
        None,
        Some(Value::Null),
        Some(json!([])),
        Some(json!([types[0]])),
        Some(json!([types[1], types[2]])),
        Some(json!([types[2], types[3], types[4]])),
    ];
    let len: u32 = if th { 5 } else { 3 };
    for code in 0..6usize.pow(len) {
        if !ctx.next() {
            continue;
        }
        let mut phases = vec![];
        let mut cur = vec![];
        for k in 0..len {
            let mut p = if k == 0 { probe(init(12., 34., 56., 4e3)) } else { blink(json!({})) };
            set(&mut p, "atmosphere.enabled", json!(k % 2 == 0));
            if let Some(e) = &opts[code / 6usize.pow(k) % 6] {
                set(&mut p, "vehicle.engines", e.clone());
                if let Some(a) = e.as_array() {
                    cur = a.clone();
                }
            }
            phases.push(p);
        }
        let Some(s) = ctx.done(&json!(phases)) else { continue };
        engines_ok(ctx, &s, &cur);
    }
    wide::explore(ctx, &[wide::Axis::Altitude, wide::Axis::Air, wide::Axis::Engines, wide::Axis::Limit, wide::Axis::Scale, wide::Axis::History], &mut |ctx, v| {
        let (f, mdot) = wide::full(v.env, v.s.p);
        let scale: f64 = v.env.engines.iter().map(|e| (e.thrust - e.area * v.s.p).abs()).sum();
        ctx.eqv("thrust", v.s.thrust, mul(v.s.throttle, f), 0., 1e-10 * scale);
        ctx.eq("mass flow", v.s.mdot, v.s.throttle * mdot, 1e-10, 1e-300);
        if v.env.maxacc.is_infinite() {
            ctx.eq("throttle", v.s.throttle, 1., 0., 0.);
        }
        ctx.eqv("sensed acceleration", v.s.vacc, mul(1. / v.s.m, add(v.s.aero, v.s.thrust)), 1e-9, 1e-12 * (norm(v.s.aero) + scale) / v.s.m);
    });
}

/// Smallest |aero + t thrust| for t in 0..1
fn least(aero: V3, thrust: V3) -> f64 {
    let tt = dot(thrust, thrust);
    let t = if tt > 0. { (-dot(aero, thrust) / tt).clamp(0., 1.) } else { 0. };
    norm(add(aero, mul(t, thrust)))
}

/// What has to hold for a reported state, given the full thrust.
fn throttle_ok(ctx: &mut Ctx, s: &Snap, limit: f64, full: V3, full_mdot: f64) {
    ctx.check("throttle range", (0. ..=1.).contains(&s.throttle), || format!("throttle {}", s.throttle));
    ctx.eqv("throttled thrust", s.thrust, mul(s.throttle, full), 0., 1e-9 * norm(full));
    ctx.eq("throttled mass flow", s.mdot, s.throttle * full_mdot, 1e-9, 1e-300);
    ctx.check("acceleration limit", norm(s.vacc) <= limit * 1.001 * (1. + 1e-9), || {
        format!("sensed acceleration {} exceeds {limit}", norm(s.vacc))
    });
    let (a, b) = (limit * s.m, norm(s.aero));
    if limit.is_infinite() || norm(full) == 0. {
        ctx.eq("throttle when nothing limits it", s.throttle, 1., 0., 0.);
    } else if b < a * (1. - 1e-9) {
        // one throttle meets the limit exactly; never throttle more than that
        let tt = dot(full, full);
        let at = dot(s.aero, full);
        let root = (-at + (at * at + tt * (a * a - b * b)).sqrt()) / tt;
        let want = root.min(1.);
        // near b = a with drag along the thrust the root loses digits
        let tol = 1e-6 + 1e-7 * a / norm(full);
        ctx.eq("throttle needed", s.throttle, want, 0., tol);
    } else if b > a * (1. + 1e-9) {
        // only thrust against the air meets the limit: as little as possible
        let tt = dot(full, full);
        let at = dot(s.aero, full);
        let disc = at * at + tt * (a * a - b * b);
        if disc > 1e-6 * at * at && at < 0. {
            let want = ((-at - disc.sqrt()) / tt).min(1.);
            let tol = 1e-6 + 1e-5 * a / norm(full);
            ctx.eq("least throttle needed", s.throttle, want, 0., tol);
        }
    }
}

pub fn c15(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let angles: Vec<f64> = if th {
        vec![0., 1e-13, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1., 10., 20., 30., 45., 60., 75., 85., 89.9, 90., 90.1, 100., 120., 135., 150., 165., 179., 179.999, 179.99999, 179.9999999, 179.99999999, 180. - 1e-10, 180.]
    } else {
        vec![0., 1e-13, 1e-10, 1e-7, 1e-4, 1., 30., 60., 89.9, 90., 120., 150., 179., 179.9999, 179.9999999, 180. - 1e-10, 180.]
    };
    let br: Vec<f64> = if th {
        vec![0., 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.95, 0.99, 0.999, 0.9996, 0.99999, 1.0005, 1.002, 1.01, 1.1, 1.2, 1.5, 2., 5., 20.]
    } else {
        vec![0., 0.01, 0.3, 0.7, 0.95, 0.999, 0.9996, 1.0005, 1.002, 1.2, 1.5, 2., 5.]
    };
    let tr: Vec<f64> = if th {
        vec![1e-3, 0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1.001, 1.1, 1.5, 2., 3., 10., 100.]
    } else {
        vec![1e-3, 0.05, 0.3, 0.7, 0.99, 1.001, 1.5, 2.2, 6., 30.]
    };
    let planes = if th { 4 } else { 2 };
    // dynamic pressure of the probe, from the model
    let mut kinds: Vec<(f64, [f64; 2])> = [1000., 1e-8, 1e-5, 0.01, 0.7, 1e6].into_iter().flat_map(|m| [[0., 0.], [0.4, -0.3], [2.0, 1.1]].map(|i| (m, i))).collect();
    // thrust to all sides
    let all = kinds.len();
    kinds.extend(directions(false).into_iter().map(|d| (1000., [d[2].atan2(d[0]), (d[1] / norm(d)).asin()])));
    for (n, (mass, inc)) in kinds.into_iter().enumerate() {
        // tiny and huge vehicles
        let odd = mass != 1000. || n >= all;
        let e = model::Engine { pitch: inc[0], yaw: inc[1], thrust: 1., isp: 300., area: 0. };
        let dir = e.dir();
        // two directions perpendicular to the thrust
        let h = if dir[0].abs() < 0.9 { [1., 0., 0.] } else { [0., 1., 0.] };
        let p1 = model::cross(dir, h);
        let p1 = mul(1. / norm(p1), p1);
        let p2 = model::cross(dir, p1);
        for (ai, &ang) in angles.iter().enumerate() {
            for plane in 0..planes {
                for (bi, &b) in br.iter().enumerate() {
                    for &t in &tr {
                        for limit in [0.5, 9., 29.41995, 4e3] {
                            for exit in [0., 0.02 * mass / 1000.] {
                                if odd && (plane > 0 || limit == 0.5 || ai % 3 > 0 || bi % 2 > 0) || limit > 1e3 && (ai % 3 > 0 || bi % 2 > 0) {
                                    continue;
                                }
                                if !ctx.next() {
                                    continue;
                                }
                                let a = limit * mass;
                                let lam = plane as f64 * 1.9 + 0.4;
                                let perp = add(mul(lam.cos(), p1), mul(lam.sin(), p2));
                                let an = f64::to_radians(ang);
                                let u = if ang == 180. {
                                    mul(-1., dir)
                                } else {
                                    add(mul(an.cos(), dir), mul(an.sin(), perp))
                                };
                                // flying along body x, so the coefficients are
                                // the components of the force
                                let mut c = with(
                                    probe(init(0., 0., 0., 5e3)),
                                    "planet_model",
                                    custom(RE, RE, 1e6, [0.; 3], 0.),
                                );
                                let env0 = Env { planet: model::Planet::from_json(&c["planet_model"]), ..Default::default() };
                                let air = model::air(env0.planet.geopotential(5e3));
                                let speed: f64 = 100.;
                                let q = 0.5 * air.rho * speed * speed;
                                set(&mut c, "atmosphere", json!({"enabled": true, "wind": [-speed, 0.0, 0.0]}));
                                set(&mut c, "vehicle.structure_mass", json!(mass));
                                set(&mut c, "vehicle.reference_area", json!(b * a / q));
                                set(&mut c, SLOTS[0], konst(-u[0]));
                                set(&mut c, SLOTS[1], konst(-u[2]));
                                set(&mut c, SLOTS[2], konst(u[1]));
                                let tv = t * a + exit * air.p;
                                set(&mut c, "vehicle.engines", json!([engine(inc, tv, 300., exit)]));
                                set(&mut c, "max_acceleration", json!(limit));
                                let full_mdot = -tv / 300. / model::G0;
                                match ctx.run(&json!([c])) {
                                    Outcome::Done(s) => {
                                        let full = mul(tv - exit * s.p, dir);
                                        throttle_ok(ctx, &s, limit, full, full_mdot);
                                    }
                                    Outcome::Aborted(m) => {
                                        let min = least(mul(b * a, u), mul(t * a, dir));
                                        ctx.check("abort", min > a * (1. - 1e-7), || {
                                            format!("aborted ({m}), but a throttle meets the limit: least force {min}, limit {a}")
                                        });
                                    }
                                    o => ctx.fail("run", o.brief()),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // Histories of limits
    let opts = [None, Some(Value::Null), Some(json!(-1.0)), Some(json!(5.0)), Some(json!(12.0)), Some(json!(50.0))];
    let len: u32 = if th { 5 } else { 3 };
    for code in 0..6usize.pow(len) {
        for air in [false, true] {
            if !ctx.next() {
                continue;
            }
            let mut limit = f64::INFINITY;
            let mut phases = vec![];
            for k in 0..len {
                let mut p = if k == 0 {
                    let mut p = coast(init(10., 10., 90., 2e4), json!("spherical"), 0.5, 1.);
                    set(&mut p, "vehicle.engines", json!([engine([0., 0.], 2e4, 300., 0.1)]));
                    set(&mut p, "vehicle.propellant_mass", json!(300.0));
                    set(&mut p, "vehicle.reference_area", json!(2.0));
                    set(&mut p, SLOTS[0], konst(0.5));
                    set(&mut p, "atmosphere.enabled", json!(air));
                    p
                } else {
                    json!({"end_criterion": ["time_since_event", 1.5]})
                };
                if let Some(v) = &opts[code / 6usize.pow(k) % 6] {
                    set(&mut p, "max_acceleration", v.clone());
                    if let Some(x) = v.as_f64() {
                        limit = if x == -1. { f64::INFINITY } else { x };
                    }
                }
                phases.push(p);
            }
            let Some(s) = ctx.done(&json!(phases)) else { continue };
            let full = [2e4 - 0.1 * s.p, 0., 0.];
            throttle_ok(ctx, &s, limit, full, -2e4 / 300. / model::G0);
        }
    }
    // Burns, observed after every step
    for limit in [6., 15., 25., 40.] {
        for air in [false, true] {
            for pitch in [0., -4.] {
                for n in 1..=24usize {
                    if !ctx.next() {
                        continue;
                    }
                    let mut p = coast(init(28., 280., 90., 100.), json!("smithsonian"), 1.5, 1.5 * n as f64);
                    set(&mut p, "vehicle", json!({"structure_mass": 500.0, "propellant_mass": 900.0,
                        "reference_area": 1.5, "drag_coeff": konst(0.6),
                        "lift_coeff": {"x": ["alpha", [-1.0, 1.0]], "data": [-2.0, 2.0]},
                        "engines": [engine([0.05, 0.], 3.2e4, 290., 0.08), engine([-0.05, 0.02], 5e3, 310., 0.02)]}));
                    set(&mut p, "atmosphere.enabled", json!(air));
                    set(&mut p, "max_acceleration", json!(limit));
                    set(&mut p, "steering.pitch", json!(["time_since_event", [pitch, 0.0, 0.0]]));
                    let cfg = json!([p]);
                    match ctx.run(&cfg) {
                        Outcome::Done(s) => {
                            let f = |ip: f64, iy: f64, t: f64| mul(t, [iy.cos() * ip.cos(), iy.sin(), iy.cos() * ip.sin()]);
                            let full = add(f(0.05, 0., 3.2e4 - 0.08 * s.p), f(-0.05, 0.02, 5e3 - 0.02 * s.p));
                            throttle_ok(ctx, &s, limit, full, -(3.2e4 / 290. + 5e3 / 310.) / model::G0);
                        }
                        Outcome::Aborted(m) => {
                            let r = model::simulate(&cfg, 1000);
                            ctx.check("abort", r.is_err(), || format!("aborted ({m}), but the limit can be met"));
                        }
                        o => ctx.fail("run", o.brief()),
                    }
                }
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Air, wide::Axis::Engines, wide::Axis::Limit, wide::Axis::Area, wide::Axis::Drag, wide::Axis::Lift, wide::Axis::Scale], &mut |ctx, v| {
        let (f, mdot) = wide::full(v.env, v.s.p);
        throttle_ok(ctx, v.s, v.env.maxacc, f, mdot);
    });
}

pub fn c20(ctx: &mut Ctx) {
    let e1 = engine([0., 0.], 3e3, 300., 0.);
    let e2 = engine([0.2, 0.], 1.2e4, 410., 0.1);
    let (ns, len, durs): (usize, u32, &[f64]) = if ctx.thorough { (3, 4, &[0.5, 2., 3.25]) } else { (4, 3, &[2.]) };
    let structs = [None, Some(json!(800.0)), Some(json!(431.5)), Some(Value::Null)];
    let props = [None, Some(json!(100.0)), Some(json!(64.25)), Some(Value::Null)];
    let engs = [None, Some(json!([e1])), Some(json!([])), Some(json!([e1, e2]))];
    let rates = [None, Some(3e3 / 300. / model::G0), Some(0.), Some((3e3 / 300. + 1.2e4 / 410.) / model::G0)];
    let base = ns.pow(3);
    for &dur in durs {
        for code in 0..base.pow(len - 1) * 8 {
            if !ctx.next() {
                continue;
            }
            let mut phases = vec![];
            // phase 0 gives everything
            let mut p = coast(init(5., 6., 7., 1e5), json!("spherical"), 0.5, dur);
            set(&mut p, "vehicle", json!({"structure_mass": 1000.0, "propellant_mass": 200.0, "engines": [e2]}));
            phases.push(p);
            let mut rate = 1.2e4 / 410. / model::G0;
            let (mut ms, mut mp) = (1000., 200. - rate * dur);
            for k in 0..len - 1 {
                let c = code / base.pow(k) % base;
                let (a, b, e) = (c % ns, c / ns % ns, c / ns / ns);
                // all phases but the last burn for a while
                let mut p = json!({});
                if let Some(v) = &structs[a] {
                    set(&mut p, "vehicle.structure_mass", v.clone());
                    ms = v.as_f64().unwrap_or(ms);
                }
                if let Some(v) = &props[b] {
                    set(&mut p, "vehicle.propellant_mass", v.clone());
                    mp = v.as_f64().unwrap_or(mp);
                }
                if let Some(v) = &engs[e] {
                    set(&mut p, "vehicle.engines", v.clone());
                    rate = rates[e].unwrap_or(rate);
                }
                mp -= rate * dur;
                phases.push(p);
            }
            // the rest of the code varies the frame conditions
            let c = code / base.pow(len - 1);
            if c & 1 == 1 {
                // coarse steps change nothing: the flow is constant
                set(&mut phases[0], "stepsize", json!(dur));
            }
            if c & 2 == 2 {
                set(&mut phases[0], "atmosphere.enabled", json!(true));
            }
            if c & 4 == 4 {
                phases.push(json!({"planet_model": "smithsonian"}));
                mp -= rate * dur;
            }
            let Some(s) = ctx.done(&json!(phases)) else { continue };
            ctx.eq("mass", s.m, ms + mp, 1e-9, 0.);
            ctx.eq("propellant mass", s.mp, mp, 0., 1e-8);
            ctx.eq("mass is structure plus propellant", s.m, ms + s.mp, 1e-12, 0.);
        }
    }
    // throttled burns: the flow is proportional to the mass
    for limit in [1e-4, 3e-3, 0.1, 0.9, 3., 20.] {
        for over in [1.05, 1.6, 7., 60., 3e3, 1e6] {
            for isp in [30., 120., 300., 4000.] {
                for h in [0.05, 0.4] {
                    for n in [1., 7., 40.] {
                        if !ctx.next() {
                            continue;
                        }
                        let (m0, t) = (1000., n * h);
                        let mut c = coast(init(5., 6., 7., 1e6), custom(RE, RE, 1., [0.; 3], 0.), h, t);
                        let f = limit * m0 * over;
                        set(&mut c, "vehicle", json!({"structure_mass": 1.0, "propellant_mass": m0 - 1.,
                            "engines": [engine([0.1, 0.2], 0.7 * f, isp, 0.), engine([0.1, 0.2], 0.3 * f, isp, 0.)]}));
                        set(&mut c, "max_acceleration", json!(limit));
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        ctx.eq("mass after a throttled burn", m0 - s.m, -m0 * (-limit * t / isp / model::G0).exp_m1(), 1e-7, 1e-10);
                    }
                }
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Mass, wide::Axis::Engines, wide::Axis::Limit, wide::Axis::Timing, wide::Axis::History, wide::Axis::Scale], &mut |ctx, v| {
        let s = v.s;
        ctx.eq("propellant mass", s.mp, s.m - v.env.ms, 1e-12, 1e-12 * s.m);
        let (_, mdot) = wide::full(v.env, 0.);
        ctx.eq("mass flow", s.mdot, s.throttle * mdot, 1e-10, 1e-300);
        if v.env.maxacc.is_infinite() || mdot == 0. {
            ctx.eq("mass burnt in the phase", s.m, v.m0 + mdot * s.tse, 1e-9, 1e-9 * v.m0);
        } else {
            ctx.check("mass burnt in the phase", s.m <= v.m0 * (1. + 1e-12) && s.m >= v.m0 + mdot * s.tse - 1e-9 * v.m0, || {
                format!("{} at the start, {} after {} s with at most {mdot} kg/s", v.m0, s.m, s.tse)
            });
        }
    });
}
