//! One space of flights in ordinary and in extreme regimes, shared by the
//! properties: every configuration which departs from one of the base flights
//! in at most `radius` axes, all phases observed.

use super::*;
use crate::model::{self, Env};
use crate::sut::{norm, Outcome, Snap};

/// A flight under construction.
#[derive(Clone)]
pub struct Spec {
    pub first: Value,
    pub rest: Vec<Value>,
    /// Factor of all masses, forces and areas.
    pub scale: f64,
}

impl Spec {
    pub fn phases(&self) -> Vec<Value> {
        let mut p = vec![self.first.clone()];
        p.extend(self.rest.iter().cloned());
        if self.scale != 1. {
            for c in &mut p {
                for k in ["structure_mass", "propellant_mass", "reference_area"] {
                    if let Some(x) = c["vehicle"][k].as_f64() {
                        set(c, &format!("vehicle.{k}"), json!(x * self.scale));
                    }
                }
                if let Some(es) = c["vehicle"]["engines"].as_array().cloned() {
                    let es: Vec<Value> = es
                        .into_iter()
                        .map(|mut e| {
                            for k in ["thrust_vac", "exit_area"] {
                                e[k] = json!(e[k].as_f64().unwrap() * self.scale);
                            }
                            e
                        })
                        .collect();
                    set(c, "vehicle.engines", json!(es));
                }
            }
        }
        p
    }
    fn set(&mut self, path: &str, v: Value) {
        set(&mut self.first, path, v);
    }
}

type Edit = Box<dyn Fn(&mut Spec)>;

fn put(path: &'static str, v: Value) -> Edit {
    Box::new(move |s| s.set(path, v.clone()))
}

fn tail(v: Vec<Value>) -> Edit {
    Box::new(move |s| s.rest = v.clone())
}

fn timing(h: f64, t: f64) -> Edit {
    Box::new(move |s| {
        s.set("stepsize", json!(h));
        s.set("end_criterion", json!(["time_since_event", t]));
    })
}

fn place(lat: f64, lon: f64, az: f64) -> Edit {
    Box::new(move |s| {
        s.set("init.latitude", json!(lat));
        s.set("init.longitude", json!(lon));
        s.set("init.azimuth", json!(az));
    })
}

fn masses(ms: f64, mp: f64) -> Edit {
    Box::new(move |s| {
        s.set("vehicle.structure_mass", json!(ms));
        s.set("vehicle.propellant_mass", json!(mp));
    })
}

pub fn tab1(var: &str, x: &[f64], d: &[f64]) -> Value {
    json!({"x": [var, x], "data": d})
}

pub fn big_table() -> Value {
    let x: Vec<f64> = (0..9).map(|k| -1.6 + 0.37 * k as f64 + 0.02 * (k * k) as f64).collect();
    let y: Vec<f64> = (0..7).map(|k| 0.1 + 0.4 * k as f64 * (1. + 0.3 * k as f64)).collect();
    let z: Vec<f64> = (0..5).map(|k| 300. + 350. * k as f64).collect();
    let v = |i: usize, j: usize, k: usize| 0.2 + ((i * 7919 + j * 104729 + k * 1299709) % 1009) as f64 / 700.;
    let d: Vec<Vec<Vec<f64>>> =
        (0..9).map(|i| (0..7).map(|j| (0..5).map(|k| v(i, j, k)).collect()).collect()).collect();
    json!({"x": ["alpha", x], "y": ["mach_number", y], "z": ["mass", z], "data": d})
}

fn long_table() -> Value {
    let x: Vec<f64> = (0..300).map(|k| 12.5 * k as f64).collect();
    let d: Vec<f64> = (0..300).map(|k| 0.3 + ((k * 7919) % 1009) as f64 / 1500.).collect();
    tab1("altitude", &x, &d)
}

/// Which axes and options a property uses.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Axis {
    Planet,
    Place,
    Altitude,
    Air,
    Scale,
    Mass,
    Engines,
    Area,
    Drag,
    Lift,
    Steering,
    Limit,
    Timing,
    History,
}
use Axis::*;

pub const AXES: [Axis; 14] =
    [Planet, Place, Altitude, Air, Mass, Engines, Area, Drag, Lift, Steering, Limit, Timing, History, Scale];

pub fn options(a: Axis) -> Vec<Edit> {
    let p = "planet_model";
    match a {
        Planet => vec![
            put(p, json!("spherical")),
            put(p, json!("fisher_1960")),
            put(p, json!("smithsonian")),
            put(p, custom(RE, 5.9e6, MU, [2e-2, -3e-3, 1e-3], -2e-4)),
            put(p, custom(3.0e6, 3.4e6, 2e13, [1e-2, -2e-2, 3e-2], 1e-3)),
            put(p, custom(7.1e7, 6.7e7, 1.27e17, [1.47e-2, -1e-6, -5.9e-4], 1.76e-4)),
            put(p, custom(5e4, 4.4e4, 1.3e7, [0.05, 0.01, -0.02], 3e-4)),
            put(p, custom(RE, RE, 1e-6, [0.; 3], 0.)),
            put(p, custom(2e6, 2e6, 4e14, [0.; 3], 0.)),
            put(p, custom(RE, RE, MU, [2e-3, 5e-4, -1e-3], -3e-7)),
        ],
        Place => vec![
            place(0., 0., 0.),
            place(90., 0., 0.),
            place(-90., 45., 90.),
            place(12., -540., -400.),
            place(-33.3, 719., 360.),
            place(1e-7, 180., 180.),
            place(89.9999, -77., 275.),
            place(-60., 91., 1e-3),
        ],
        Altitude => [0., -0.5, -3e3, -0.3, 37., 1.11e4, 4.7e4, 9e4, 1.2e5, 6.9e5, 2.9e6, 3.6e7, 4.4e8, 1e10]
            .into_iter()
            .map(|x| -> Edit {
                Box::new(move |s| {
                    let p = &s.first["planet_model"];
                    let p = if p.is_null() { model::Planet::from_json(&json!("spherical")) } else { model::Planet::from_json(p) };
                    // deep inside
                    let x = if x == -0.3 { x * p.re } else { x };
                    s.set("init.altitude", json!(x));
                })
            })
            .collect(),
        Air => vec![
            put("atmosphere", json!({"enabled": true})),
            put("atmosphere", json!({"enabled": false})),
            put("atmosphere", json!({"enabled": true, "wind": [7000.0, -3000.0, 500.0]})),
            put("atmosphere", json!({"enabled": true, "wind": [0.0, 1e-5, 0.0]})),
            put("atmosphere", json!({"wind": [3e4, 2e4, -1e4]})),
            put("atmosphere", json!({"enabled": true, "wind": [-400.0, 250.0, -90.0]})),
            put("atmosphere", json!(null)),
        ],
        Scale => [1e-6, 3e-4, 0.02, 40., 2e4, 1e7].into_iter().map(|x| -> Edit { Box::new(move |s| s.scale = x) }).collect(),
        Mass => vec![
            masses(1000., 0.),
            masses(0., 1000.),
            masses(0.5, 1e4),
            masses(1e5, 1.),
            masses(300., 30.),
            put("vehicle.propellant_mass", json!(null)),
        ],
        Engines => vec![
            put("vehicle.engines", json!([])),
            put("vehicle.engines", json!(null)),
            put("vehicle.engines", json!([engine([0.1, -0.1], 3e4, 310., 0.1), engine([-0.2, 0.3], 8e3, 270., 0.)])),
            put("vehicle.engines", json!([engine([0.02, 0.01], 3e4, 300., 0.6)])),
            put("vehicle.engines", json!((0..9).map(|k| engine([0.05 * (k as f64 - 3.), -0.07 * (k as f64 - 5.)], 1e3 * (k + 1) as f64, 200. + 30. * k as f64, 0.01 * k as f64)).collect::<Vec<_>>())),
            put("vehicle.engines", json!([engine([3.0, 1.4], 2.5e4, 1e5, 0.), engine([-2.0, -1.2], 500., 15., 0.)])),
            put("vehicle.engines", json!([engine([0., 0.], 0., 300., 0.)])),
            put("vehicle.engines", json!([engine([0., 0.], 4e5, 350., 0.5)])),
            put("vehicle.engines", json!([engine([0.3, 0.], 0.02, 3000., 0.)])),
            put("vehicle.engines", json!([engine([0., 0.], 2e4, 300., 0.), engine([std::f64::consts::PI, 0.], 2e4, 300., 0.)])),
        ],
        Area => [0., 1e-5, 0.02, 12., 300.].into_iter().map(|x| put("vehicle.reference_area", json!(x))).collect(),
        Drag => vec![
            put("vehicle.drag_coeff", json!(null)),
            put("vehicle.drag_coeff", konst(2.)),
            put("vehicle.drag_coeff", konst(-0.3)),
            put("vehicle.drag_coeff", json!({"x": ["alpha", [-0.5, 0.0, 0.5]], "y": ["mach_number", [0.0, 0.8, 1.2, 3.0]],
                "data": [[0.8, 0.9, 1.2, 0.9], [0.3, 0.4, 0.7, 0.5], [0.8, 0.95, 1.3, 0.9]]})),
            put("vehicle.drag_coeff", big_table()),
            put("vehicle.drag_coeff", long_table()),
            put("vehicle.drag_coeff", tab1("velocity_planet_norm", &[1e-4, 30., 30.000001, 4e3], &[0.1, 0.4, 0.9, 0.2])),
            put("vehicle.drag_coeff", json!({"x": ["altitude", []], "data": []})),
            put("vehicle.drag_coeff", tab1("time_since_event", &[0.2, 1.], &[0.3, 0.7])),
        ],
        Lift => vec![
            Box::new(|s| {
                s.set("vehicle.lift_coeff", tab1("alpha", &[-1., 1.], &[-2., 2.]));
                s.set("vehicle.side_force_coeff", konst(0.1));
            }),
            Box::new(|s| {
                s.set("vehicle.lift_coeff", konst(-0.8));
                s.set("vehicle.side_force_coeff", tab1("mach_number", &[0., 1., 6.], &[0.4, -0.5, 0.1]));
            }),
            put("vehicle.side_force_coeff", konst(1.7)),
            put("vehicle.lift_coeff", json!({"x": ["altitude", [0.0, 1e4]], "y": ["velocity_planet_norm", [0.0, 500.0]], "z": ["mass", [500.0, 1500.0]],
                "data": [[[0.1, 0.2], [0.4, 0.3]], [[-0.1, 0.6], [0.2, 0.9]]]})),
            put("vehicle.lift_coeff", tab1("dynamic_pressure", &[0., 1e3, 1e5], &[0.5, -0.2, 0.6])),
        ],
        Steering => vec![
            put("steering", json!({"pitch": ["time_since_event", [-2.0, 0.0, 0.0]]})),
            put("steering", json!({"pitch": ["time_since_event", [-250.0, 0.0, 0.0]], "yaw": ["time_since_event", [97.0, 0.0, 0.0]], "roll": ["time_since_event", [731.0, 0.0, 0.0]]})),
            put("steering", json!({"yaw": ["time_since_event", [1.0, -0.4, 0.03]], "pitch": ["propellant_mass", [0.01, 0.0, 0.0]]})),
            put("steering", json!({"roll": ["time", [5.0, 0.0, 0.0]], "yaw": ["velocity_planet_norm", [0.02, 0.0, 0.0]], "pitch": ["altitude", [-0.002, 0.0, 0.0]]})),
            put("steering", json!({"pitch": ["gravity_acceleration_norm", [3.0, -0.1, 0.0]], "yaw": ["mass", [0.05, 0.0, 0.0]]})),
            put("steering", json!({"yaw": ["time_since_event", [60.0, 0.0, 0.0]]})),
            put("steering", json!({"roll": ["time_since_event", [-45.0, 0.0, 0.0]], "pitch": ["time_since_event", [1e-5, 0.0, 0.0]]})),
            put("steering", json!(null)),
        ],
        Limit => [-1., 0., 0.2, 6., 14., 30., 500., 1e6].into_iter().map(|x| put("max_acceleration", json!(x))).collect(),
        Timing => vec![
            timing(1e-9, 0.),
            timing(1e-6, 4e-6),
            timing(0.01, 0.12),
            timing(0.0078125, 0.0703125),
            timing(0.1237, 0.9),
            timing(0.3, 1.),
            timing(1., 0.25),
            timing(7., 21.),
            timing(13., 100.),
            timing(60., 180.),
            timing(1000., 2000.),
            timing(2.5e4, 5e4),
        ],
        History => vec![
            tail(vec![json!({})]),
            tail(vec![json!({}); 6]),
            tail(vec![json!({"vehicle": {"structure_mass": 350.0}}), json!({})]),
            tail(vec![json!({"vehicle": {"propellant_mass": 512.5}})]),
            tail(vec![json!({"vehicle": {"structure_mass": 0.0}}), json!({})]),
            tail(vec![json!({"vehicle": {"propellant_mass": 0.0}})]),
            tail(vec![json!({"vehicle": {"structure_mass": 0.0, "propellant_mass": 444.0}})]),
            tail(vec![json!({"vehicle": {"structure_mass": 300.0, "propellant_mass": 444.0, "reference_area": 0.2, "engines": [engine([0.0, 0.05], 1e4, 345., 0.02)]}}), json!({})]),
            tail(vec![json!({"planet_model": "fisher_1960"}), json!({"atmosphere": {"enabled": false}})]),
            tail(vec![json!({"planet_model": custom(7e6, 5e6, 2e14, [-1e-2, 1e-3, 0.], -4e-4)})]),
            tail(vec![json!({"atmosphere": {"enabled": false}}), json!({"atmosphere": {"enabled": true}}), json!({"atmosphere": {"wind": [0.0, 40.0, -9.0]}})]),
            tail(vec![json!({"steering": {"pitch": ["time_since_event", [-5.0, 0.0, 0.0]]}}), json!({"steering": {"yaw": ["time_since_event", [400.0, 0.0, 0.0]]}}), json!({})]),
            tail(vec![json!({"max_acceleration": 9.0}), json!({"max_acceleration": -1})]),
            tail(vec![json!({"stepsize": 0.37}), json!({"stepsize": 2.0, "end_criterion": ["time_since_event", 3.3]}), json!({})]),
            tail(vec![json!({"vehicle": {"engines": []}}), json!({"vehicle": {"engines": [engine([0.1, 0.], 2e4, 300., 0.), engine([0., 0.1], 1e4, 200., 0.1)]}})]),
            tail(vec![json!({"vehicle": {"drag_coeff": konst(0.9), "lift_coeff": konst(0.4)}}), json!({"vehicle": {"reference_area": 1.9}})]),
            tail(vec![json!({"stepsize": 0.05, "end_criterion": ["time_since_event", 0.11]}); 25]),
            tail(vec![json!({"init": {"latitude": -5.0, "longitude": 1.0, "azimuth": 2.0, "altitude": 3.0}}), json!({"steering": {"roll": ["time", [1.0, 0.0, 0.0]]}, "vehicle": {"side_force_coeff": konst(0.3)}})]),
        ],
    }
}

pub fn bases() -> Vec<Spec> {
    let a = json!({
        "init": init(33., 140., 65., 900.),
        "planet_model": "smithsonian",
        "atmosphere": {"enabled": true, "wind": [14.0, -9.0, 5.0]},
        "vehicle": {"structure_mass": 700.0, "propellant_mass": 800.0, "reference_area": 0.6,
            "drag_coeff": konst(0.4), "engines": [engine([0.0, 0.0], 3.5e4, 300., 0.05)]},
        "stepsize": 0.5,
        "end_criterion": ["time_since_event", 1.5]
    });
    let b = json!({
        "init": init(-20., 300., 120., 5e5),
        "planet_model": custom(RE, RP, MU, [1.08e-3, 0., 0.], W),
        "vehicle": {"structure_mass": 1000.0, "propellant_mass": 500.0, "engines": [engine([0.05, -0.02], 2e4, 320., 0.)]},
        "steering": {"pitch": ["time_since_event", [-0.7, 0.0, 0.0]]},
        "max_acceleration": 25.0,
        "stepsize": 2.0,
        "end_criterion": ["time_since_event", 6.0]
    });
    let c = json!({"init": init(5., 20., 90., 2e4), "vehicle": {"structure_mass": 900.0}, "end_criterion": ["time_since_event", 2.0]});
    [a, b, c].into_iter().map(|first| Spec { first, rest: vec![], scale: 1. }).collect()
}

/// Calls `f` for every flight which departs in at most `radius` axes.
pub fn ball(ctx: &mut Ctx, axes: &[Axis], radius: usize, f: &mut dyn FnMut(&mut Ctx, &Spec)) {
    let opts: Vec<Vec<Edit>> = axes.iter().map(|a| options(*a)).collect();
    fn rec(ctx: &mut Ctx, s: &Spec, opts: &[Vec<Edit>], from: usize, left: usize, picks: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&mut Ctx, &Spec)) {
        if ctx.stopped() {
            return;
        }
        if ctx.next() {
            let mut t = s.clone();
            for &(a, o) in picks.iter() {
                opts[a][o](&mut t);
            }
            f(ctx, &t);
        }
        if left == 0 {
            return;
        }
        for a in from..opts.len() {
            for o in 0..opts[a].len() {
                picks.push((a, o));
                rec(ctx, s, opts, a + 1, left - 1, picks, f);
                picks.pop();
            }
        }
    }
    for b in bases() {
        rec(ctx, &b, &opts, 0, radius, &mut vec![], f);
    }
}

/// The words of the extended Golay code.  Any 7 of their 24 bits take all 2^7
/// values (the code is its own dual and has distance 8): an orthogonal array of
/// strength 7.
fn words() -> impl Iterator<Item = u32> {
    (0..4096u32).map(|m| {
        let mut w = 0u32;
        for k in 0..12 {
            if m >> k & 1 == 1 {
                w ^= 0xc75 << k;
            }
        }
        w | (w.count_ones() & 1) << 23
    })
}

/// A flight with 24 choices of two, in one of three versions.  (No pole and no
/// vertical wind: there, rounding decides on directions.)
pub fn chosen(word: u32, version: usize) -> Spec {
    let bit = |k: usize| word >> k & 1 == 1;
    fn pick<T: Copy>(b: bool, o: [T; 2]) -> T {
        o[b as usize]
    }
    let v = version;
    let lat = pick(bit(0), [[33., -51.], [-5., 88.], [0., -89.5]][v]);
    let lon = pick(bit(1), [[140., 301.], [-20., 200.], [0., -450.]][v]);
    let az = pick(bit(2), [[65., 250.], [0., 170.], [90., -30.]][v]);
    let alt = pick(bit(3), [[900., 1.3e5], [-400., 3.1e4], [9e4, 2e6]][v]);
    let j = pick(bit(4), [[[0.; 3], [1.1e-3, -4e-4, 3e-4]], [[1e-2, 0., 0.], [0., 2e-3, 0.]], [[0., 0., -1e-3], [-2e-2, 1e-3, 1e-3]]][v]);
    let rp = pick(bit(5), [[RE, RP], [6e6, 6.5e6], [RE, 5.9e6]][v]);
    let w = pick(bit(6), [[2.1e-5, -1.3e-5], [0., 1.9e-5], [-2.2e-5, 7e-6]][v]);
    let air = bit(7);
    let wind = pick(bit(8), [[[0.; 3], [90., -60., 40.]], [[3., -1., -30.], [-50., 80., 0.]], [[1e-4, 0., 0.], [-20., -30., -110.]]][v]);
    let scale = pick(bit(9), [[1., 3e5], [2e-4, 1.], [1e-7, 2e3]][v]);
    let main = if bit(10) {
        vec![engine([0.12, -0.2], 2.4e4, 310., 0.1), engine([-0.3, 0.1], 9e3, 270., 0.)]
    } else {
        vec![engine([0., 0.], [4e4, 3e4, 3.6e4][v], 300., [0., 0.05, 0.02][v])]
    };
    let mut engines = main;
    if bit(11) {
        engines.push(engine([[3.0, 0.2], [-2.9, 0.6], [0.4, 2.6]][v], 5.6e4, 250., [0.2, 0., 0.][v]));
    }
    let mut vehicle = json!({"structure_mass": 700.0, "propellant_mass": pick(bit(20), [[800., 0.], [0.5, 650.], [2e3, 90.]][v]),
        "reference_area": 0.4, "engines": engines});
    if bit(12) {
        vehicle["drag_coeff"] = [
            json!({"x": ["alpha", [-0.5, 0.0, 0.5]], "y": ["mach_number", [0.0, 0.3, 1.2]], "data": [[0.8, 0.9, 1.2], [0.3, 0.4, 0.7], [0.8, 0.95, 1.3]]}),
            tab1("altitude", &[0., 1e3, 5e4], &[0.3, 0.7, 0.5]),
            konst(0.8),
        ][v]
            .clone();
    }
    if bit(13) {
        vehicle["lift_coeff"] = [tab1("alpha", &[-1., 1.], &[-1., 1.]), konst(-0.4), tab1("time_since_event", &[0., 1.], &[0.3, 0.2])][v].clone();
    }
    if bit(14) {
        vehicle["side_force_coeff"] = [konst(0.3), tab1("alpha", &[-1., 2.], &[-0.3, 0.4]), tab1("velocity_planet_norm", &[0., 200.], &[0.2, 0.5])][v].clone();
    }
    let mut c = json!({
        "init": init(lat, lon, az, alt),
        "planet_model": custom(RE, rp, MU, j, w),
        "atmosphere": {"enabled": air, "wind": wind},
        "vehicle": vehicle,
    });
    if bit(15) {
        c["max_acceleration"] = json!([17., 12., 24.][v]);
    }
    let mut steering = json!({});
    if bit(16) {
        steering["roll"] = json!([(["time_since_event", "time", "mass"][v]), ([[411.0, 0., 0.], [-35., 0., 0.], [0.4, 0., 0.]][v])]);
    }
    if bit(17) {
        steering["yaw"] = json!([(["time", "time_since_event", "altitude"][v]), ([[31., 0., 0.], [97., 0., 0.], [0.01, 0., 0.]][v])]);
    }
    if bit(18) {
        steering["pitch"] = json!([(["time_since_event", "velocity_planet_norm", "time_since_event"][v]), ([[-170., 0., 0.], [0.4, 0., 0.], [-3., 0.2, 0.01]][v])]);
    }
    c["steering"] = steering;
    let h = pick(bit(19), [[0.05, 2.3], [0.7, 9.], [1e-3, 0.3]][v]);
    c["stepsize"] = json!(h);
    c["end_criterion"] = json!(["time_since_event", 2.6 * h]);
    let mut rest = vec![];
    if bit(21) {
        rest.push(
            [
                json!({"vehicle": {"structure_mass": 640.0, "engines": [engine([0.05, 0.], 2.2e4, 290., 0.)]}}),
                json!({"vehicle": {"propellant_mass": 300.0, "reference_area": 0.2}, "steering": {"yaw": ["time_since_event", [-20.0, 0.0, 0.0]]}}),
                json!({"vehicle": {"engines": []}, "max_acceleration": -1}),
            ][v]
                .clone(),
        );
    }
    if bit(22) {
        rest.push(
            [
                json!({"planet_model": "smithsonian", "atmosphere": {"enabled": !air}}),
                json!({"planet_model": custom(6.3e6, 6.2e6, 3e14, [0., 1e-3, 0.], 3e-5), "stepsize": 0.4 * h}),
                json!({"atmosphere": {"wind": [0.0, 20.0, 0.0]}, "steering": {"pitch": ["time_since_event", [9.0, 0.0, 0.0]]}}),
            ][v]
                .clone(),
        );
    }
    if bit(23) {
        // late: the same after two days at rest in empty space
        let mut before = json!({"init": c["init"], "planet_model": custom(RE, rp, 1e-9, [0.; 3], 0.), "stepsize": 1e5, "end_criterion": ["time_since_event", 2e5]});
        before["vehicle"] = c["vehicle"].clone();
        before["vehicle"].as_object_mut().unwrap().remove("engines");
        c.as_object_mut().unwrap().remove("init");
        rest.insert(0, c);
        c = before;
    }
    Spec { first: c, rest, scale }
}

/// Every word of the array.
pub fn array(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &Spec)) {
    for version in 0..3 {
        for w in words() {
            if ctx.stopped() {
                return;
            }
            if ctx.next() {
                f(ctx, &chosen(w, version));
            }
        }
    }
}

/// The ball of all axes, and the array.
pub fn all(ctx: &mut Ctx, radius: usize, f: &mut dyn FnMut(&mut Ctx, &Spec)) {
    ball(ctx, &AXES, radius, f);
    array(ctx, f);
}

/// The model knows this flight, and it does not leave all bounds.
fn tame(phases: &[Value]) -> bool {
    model::simulate(&json!(phases), 3000)
        .is_ok_and(|t| t.phases.iter().flatten().all(|s| norm(s.r) < 1e15 && norm(s.v) < 1e12 && s.acc.iter().all(|x| x.is_finite())))
}

/// The end of a phase and what was in force in it.
pub struct Seen<'a> {
    pub s: &'a Snap,
    pub env: &'a Env,
    /// End of the phase before.
    pub prev: Option<&'a Snap>,
    /// Mass at the start of the phase.
    pub m0: f64,
    pub cfg: &'a [Value],
    pub out: &'a str,
}

/// What the manual leaves open about a state.
pub fn open(s: &Snap, env: &Env) -> bool {
    // (far beyond the speed of light, where forces overflow)
    !(s.m > 0.) || !(norm(s.r) < 1e30) || !(norm(s.v) < 1e30) || env.atmo && !(env.planet.altitude(s.r) > -5e3)
}

/// Runs every prefix of the flight and shows the end of each phase.
pub fn watch(ctx: &mut Ctx, phases: &[Value], monitor: &mut dyn FnMut(&mut Ctx, &Seen)) {
    let mut env = Env::default();
    let mut prev: Option<Box<Snap>> = None;
    let long = phases.len() > 5;
    for k in 0..phases.len() {
        if long && k + 3 == phases.len() {
            // what was before
            match ctx.run(&json!(phases[..k])) {
                Outcome::Done(s) if !open(&s, &env) => prev = Some(s),
                _ => {
                    ctx.skipped += 1;
                    return;
                }
            }
        }
        let mp = prev.as_ref().map(|s| s.mp).unwrap_or(0.);
        let mass = env.merge(&phases[k], mp);
        if k == 0 {
            env.init(&phases[0]["init"]);
        }
        let e = prev.as_ref().map(|s| s.euler).unwrap_or([0.; 3]);
        for i in 0..3 {
            env.steer[i].1[0] = e[i].to_degrees();
        }
        // of long histories only the end is observed
        if long && k + 3 < phases.len() {
            continue;
        }
        let m0 = mass.unwrap_or(prev.as_ref().map(|s| s.m).unwrap_or(0.));
        ctx.sut.budget = 400_000;
        let o = ctx.run(&json!(phases[..=k]));
        ctx.sut.budget = crate::sut::BUDGET;
        let s = match o {
            Outcome::Done(s) => s,
            Outcome::Rejected(_) => {
                ctx.fail("run", format!("a valid configuration: {}", o.brief()));
                return;
            }
            // a limit which cannot be met is the only reason to give up, unless
            // the flight goes where nothing is specified
            Outcome::Aborted(m) if !env.maxacc.is_finite() && tame(&phases[..=k]) => {
                ctx.fail("run", format!("aborted: {m}"));
                return;
            }
            _ => {
                ctx.skipped += 1;
                return;
            }
        };
        if open(&s, &env) {
            ctx.skipped += 1;
            return;
        }
        let out = std::mem::take(&mut ctx.sut.last_output);
        monitor(ctx, &Seen { s: &s, env: &env, prev: prev.as_deref(), m0, cfg: &phases[..=k], out: &out });
        ctx.sut.last_output = out;
        if ctx.stopped() {
            return;
        }
        prev = Some(s);
    }
}

/// The usual exploration: a monitor on the whole space, deeper in the axes
/// which matter most.
pub fn explore(ctx: &mut Ctx, core: &[Axis], monitor: &mut dyn FnMut(&mut Ctx, &Seen)) {
    let r = if ctx.thorough { 3 } else { 2 };
    ball(ctx, &AXES, r, &mut |ctx, s| watch(ctx, &s.phases(), monitor));
    ball(ctx, core, r + 1, &mut |ctx, s| watch(ctx, &s.phases(), monitor));
    array(ctx, &mut |ctx, s| watch(ctx, &s.phases(), monitor));
}

/// Thrust and mass flow at full throttle.
pub fn full(env: &Env, p: f64) -> (V3, f64) {
    (env.thrust(p), -env.engines.iter().map(|e| e.thrust / (e.isp * model::G0)).sum::<f64>())
}
