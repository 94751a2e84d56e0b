//! The properties: for each the exhaustive exploration which decides it.

mod attitude;
mod dynamics;
mod env;
mod interface;
mod phases;
mod plot;
mod vehicle;
mod wide;

use crate::ctx::Ctx;
use crate::sut::V3;
use serde_json::{json, Value};

pub use interface::once;

pub struct Info {
    id: &'static str,
    quick: &'static str,
    deep: &'static str,
    pub assumptions: &'static [&'static str],
}

impl Info {
    pub fn bound(&self, thorough: bool) -> String {
        let wide = self.wide(thorough);
        if thorough {
            format!("{} | thorough: {}{wide}", self.quick, self.deep)
        } else {
            format!("{}{wide}", self.quick)
        }
    }

    /// What it explores of the space of flights in all regimes (`wide.rs`).
    fn wide(&self, thorough: bool) -> String {
        let t = thorough as usize;
        let (axes, core) = match self.id {
            "C19" => return String::new(),
            "C21" => return "; every ordered pair of flights which depart from one of 3 base flights in at most one of 14 axes".into(),
            "C02" | "C18" | "C22" | "C27" => (1 + t, 0),
            "C05" | "C24" | "C26" | "C01" | "C23" => (2 + t, 0),
            "C06" => return String::new(),
            "C09" => (3 + t, 0),
            _ => (2 + t, 3 + t),
        };
        let core = if core > 0 { format!(" ({core} in the axes which matter most for it)") } else { String::new() };
        let options: usize = wide::AXES.iter().map(|a| wide::options(*a).len()).sum();
        let array = match self.id {
            "C22" | "C27" => "",
            _ => "; all 3 x 4096 flights of an array in which any 7 of 24 features of two values take all 128 combinations",
        };
        format!("; every flight which departs from one of 3 base flights in at most {axes} of {} axes{core} with {options} options in all{array}", wide::AXES.len())
    }
}

type F = fn(&mut Ctx);

pub fn all() -> Vec<(&'static str, F, Info)> {
    let mut v = vec![];
    v.extend(phases::props());
    v.extend(dynamics::props());
    v.extend(env::props());
    v.extend(vehicle::props());
    v.extend(attitude::props());
    v.extend(interface::props());
    v.extend(plot::props());
    v.sort_by_key(|p| p.0);
    v
}

pub fn ids() -> Vec<&'static str> {
    all().iter().map(|p| p.0).collect()
}

pub fn lookup(id: &str) -> Option<F> {
    all().into_iter().find(|p| p.0 == id).map(|p| p.1)
}

pub fn info(id: &str) -> Info {
    all().into_iter().find(|p| p.0 == id).map(|p| p.2).unwrap_or_else(|| panic!("no property {id}"))
}

/// Shorthand used by all registrations.
pub fn reg(id: &'static str, f: F, quick: &'static str, deep: &'static str) -> (&'static str, F, Info) {
    (
        id,
        f,
        Info {
            id,
            quick,
            deep,
            assumptions: &[
                "real code executed through its public entry points, optimised build, same toolchain as the repository's tests",
                "IEEE double arithmetic; comparisons within the tolerances stated in DESIGN.md",
                "exhaustive within the stated alphabets only; values between the grid points are not covered",
            ],
        },
    )
}

/// Sets a value by dotted path, creating objects on the way.
pub fn set(v: &mut Value, path: &str, val: Value) {
    let mut cur = v;
    for k in path.split('.') {
        if !cur.is_object() {
            *cur = json!({});
        }
        cur = cur.as_object_mut().unwrap().entry(k).or_insert(Value::Null);
    }
    *cur = val;
}

pub fn with(mut v: Value, path: &str, val: Value) -> Value {
    set(&mut v, path, val);
    v
}

pub fn init(lat: f64, long: f64, az: f64, alt: f64) -> Value {
    json!({"latitude": lat, "longitude": long, "azimuth": az, "altitude": alt})
}

pub fn custom(re: f64, rp: f64, mu: f64, j: V3, w: f64) -> Value {
    json!({"custom": {"equatorial_radius": re, "polar_radius": rp,
        "gravitational_parameters": [mu, j[0], j[1], j[2]], "rotation_rate": w}})
}

pub const RE: f64 = 6378165.8568;
pub const RP: f64 = 6356783.832;
pub const MU: f64 = 3.986032e14;
pub const W: f64 = 7.29211e-5;

/// Practically massless planet: everything moves in straight lines.
pub fn void(w: f64) -> Value {
    custom(RE, RE, 1e-6, [0.; 3], w)
}

pub fn engine(inc: [f64; 2], thrust: f64, isp: f64, area: f64) -> Value {
    json!({"incidence": inc, "thrust_vac": thrust, "isp_vac": isp, "exit_area": area})
}

pub fn konst(c: f64) -> Value {
    json!({"x": ["time", [0.0]], "data": [c]})
}

/// First phase which only evaluates the equations of motion: it ends after a
/// step of a nanosecond.
pub fn probe(i: Value) -> Value {
    json!({"init": i, "vehicle": {"structure_mass": 1000.0}, "stepsize": 1e-9,
        "end_criterion": ["time_since_event", 0.0]})
}

/// Turns a phase into one which only evaluates.
pub fn blink(mut v: Value) -> Value {
    set(&mut v, "stepsize", json!(1e-9));
    set(&mut v, "end_criterion", json!(["time_since_event", 0.0]));
    v
}

/// First phase of a given duration and step size.
pub fn coast(i: Value, planet: Value, h: f64, t: f64) -> Value {
    json!({"init": i, "planet_model": planet, "vehicle": {"structure_mass": 1000.0},
        "stepsize": h, "end_criterion": ["time_since_event", t]})
}

pub fn grid(from: f64, to: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| from + (to - from) * i as f64 / (n - 1) as f64).collect()
}
