//! Reference model, written from the user manual and the published
//! formulation, with plain arrays and without any code of the repository.

use crate::sut::{norm, Snap, V3};
use serde_json::Value;

pub const G0: f64 = 9.80665;
pub const R_AIR: f64 = 8.31432e3 / 28.9644;
pub const KAPPA: f64 = 1.4;
const FT: f64 = 0.3048;

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(k: f64, a: V3) -> V3 {
    [k * a[0], k * a[1], k * a[2]]
}
pub type M3 = [V3; 3];
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let bt = tr(b);
    let mut o = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = dot(a[i], bt[j]);
        }
    }
    o
}
pub fn tr(a: &M3) -> M3 {
    let mut o = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
/// Frame rotations about one axis.
pub fn rx(a: f64) -> M3 {
    [[1., 0., 0.], [0., a.cos(), a.sin()], [0., -a.sin(), a.cos()]]
}
pub fn ry(a: f64) -> M3 {
    [[a.cos(), 0., -a.sin()], [0., 1., 0.], [a.sin(), 0., a.cos()]]
}
pub fn rz(a: f64) -> M3 {
    [[a.cos(), a.sin(), 0.], [-a.sin(), a.cos(), 0.], [0., 0., 1.]]
}

#[derive(Clone, Debug)]
pub struct Planet {
    pub re: f64,
    pub rp: f64,
    pub mu: f64,
    pub j: [f64; 3],
    pub w: f64,
}

impl Planet {
    pub fn from_json(v: &Value) -> Planet {
        let re = 20925741.0 * FT;
        let rp = 20855590.0 * FT;
        let ft3 = FT * FT * FT;
        let w = 7.29211e-5;
        match v.as_str() {
            Some("spherical") => Planet { re, rp: re, mu: 1.4076539e16 * ft3, j: [0.; 3], w },
            Some("fisher_1960") => {
                Planet { re, rp, mu: 1.4076539e16 * ft3, j: [1.0823e-3, 0., 0.], w }
            }
            Some("smithsonian") => Planet {
                re,
                rp,
                mu: 1.407645794e16 * ft3,
                j: [1.082639e-3, -2.565e-6, -1.608e-6],
                w,
            },
            Some(o) => panic!("planet {o}"),
            None => {
                let c = &v["custom"];
                let g = |i: usize| c["gravitational_parameters"][i].as_f64().unwrap();
                Planet {
                    re: c["equatorial_radius"].as_f64().unwrap(),
                    rp: c["polar_radius"].as_f64().unwrap(),
                    mu: g(0),
                    j: [g(1), g(2), g(3)],
                    w: c["rotation_rate"].as_f64().unwrap(),
                }
            }
        }
    }

    /// Distance of the surface of the ellipsoid from the center, in the
    /// direction of `r`.
    pub fn surface(&self, r: V3) -> f64 {
        let n = norm(r);
        let (c2, s2) = ((r[0] * r[0] + r[1] * r[1]) / (n * n), r[2] * r[2] / (n * n));
        1. / (c2 / (self.re * self.re) + s2 / (self.rp * self.rp)).sqrt()
    }

    pub fn altitude(&self, r: V3) -> f64 {
        norm(r) - self.surface(r)
    }

    pub fn geopotential(&self, alt: f64) -> f64 {
        let ra = (self.re + self.rp) / 2.;
        ra * alt / (ra + alt)
    }

    /// Legendre polynomials P2..P4 and their derivatives.
    fn legendre(s: f64) -> ([f64; 3], [f64; 3]) {
        (
            [
                (3. * s * s - 1.) / 2.,
                (5. * s * s * s - 3. * s) / 2.,
                (35. * s * s * s * s - 30. * s * s + 3.) / 8.,
            ],
            [3. * s, (15. * s * s - 3.) / 2., (140. * s * s * s - 60. * s) / 8.],
        )
    }

    /// Zonal potential U (g = grad U).
    pub fn potential(&self, r: V3) -> f64 {
        let n = norm(r);
        let (p, _) = Self::legendre(r[2] / n);
        let mut sum = 1.;
        for i in 0..3 {
            sum -= self.j[i] * (self.re / n).powi(i as i32 + 2) * p[i];
        }
        self.mu / n * sum
    }

    pub fn gravity(&self, r: V3) -> V3 {
        let n = norm(r);
        let s = r[2] / n;
        let (p, dp) = Self::legendre(s);
        let (mut dr, mut ds) = (1., 0.);
        for i in 0..3 {
            let k = self.j[i] * (self.re / n).powi(i as i32 + 2);
            dr -= (i as f64 + 3.) * k * p[i];
            ds -= k * dp[i];
        }
        let rhat = mul(1. / n, r);
        let grads = mul(1. / n, sub([0., 0., 1.], mul(s, rhat)));
        add(mul(-self.mu / (n * n) * dr, rhat), mul(self.mu / n * ds, grads))
    }
}

/// 1962 standard atmosphere: (geopotential altitude in ft, temperature in °R)
/// at the layer boundaries. Pressures follow from integrating the
/// hydrostatic equation upwards from sea level.
pub const LAYERS: [(f64, f64); 22] = [
    (0.0, 518.67),
    (36089.239, 389.97),
    (65616.797, 389.97),
    (104986.87, 411.57),
    (154199.48, 487.17),
    (170603.68, 487.17),
    (200131.23, 454.77),
    (259186.35, 325.17),
    (291151.57, 325.17),
    (323002.74, 379.17),
    (354753.59, 469.17),
    (386406.39, 649.17),
    (480781.04, 1729.17),
    (512046.16, 1999.17),
    (543215.48, 2179.17),
    (605268.45, 2431.17),
    (728243.91, 2791.17),
    (939894.74, 3295.17),
    (1234645.7, 3889.17),
    (1520799.4, 4357.17),
    (1798726.4, 4663.17),
    (2068776.5, 4861.17),
];

pub struct Air {
    pub temp: f64,
    pub p: f64,
    pub rho: f64,
    pub sound: f64,
}

pub fn air(h: f64) -> Air {
    let mut p = 101325.0055;
    let k = G0 / R_AIR;
    let n = LAYERS.len();
    for i in 0..n {
        let (h0, t0) = (LAYERS[i].0 * FT, LAYERS[i].1 / 1.8);
        let (l, top) = if i + 1 < n {
            let (h1, t1) = (LAYERS[i + 1].0 * FT, LAYERS[i + 1].1 / 1.8);
            ((t1 - t0) / (h1 - h0), h1)
        } else {
            (0., f64::INFINITY)
        };
        let l = if l.abs() < 1e-9 { 0. } else { l };
        let z = if h < top { h } else { top };
        let t = t0 + l * (z - h0);
        let pz = if l == 0. {
            p * (-k * (z - h0) / t0).exp()
        } else {
            p * (t0 / t).powf(k / l)
        };
        if h < top {
            return Air { temp: t, p: pz, rho: pz / (R_AIR * t), sound: (KAPPA * R_AIR * t).sqrt() };
        }
        p = pz;
    }
    unreachable!()
}

#[derive(Clone, Debug)]
pub struct Table {
    pub axes: Vec<(String, Vec<f64>)>,
    pub data: Value,
}

impl Table {
    pub fn from_json(v: &Value) -> Table {
        let mut axes = vec![];
        for k in ["x", "y", "z"] {
            if !v[k].is_null() {
                axes.push((
                    v[k][0].as_str().unwrap().to_string(),
                    v[k][1].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect(),
                ));
            }
        }
        Table { axes, data: v["data"].clone() }
    }

    /// Multilinear inter- and extrapolation; None without any data.
    pub fn at(&self, f: &dyn Fn(&str) -> f64) -> Option<f64> {
        fn rec(axes: &[(String, Vec<f64>)], d: &Value, f: &dyn Fn(&str) -> f64) -> Option<f64> {
            let Some((name, nodes)) = axes.first() else {
                return d.as_f64();
            };
            let sub = |i: usize| rec(&axes[1..], &d[i], f);
            match nodes.len() {
                0 => None,
                1 => sub(0),
                n => {
                    let x = f(name);
                    // the cell: the last node at or below x, kept inside
                    let mut i = 0;
                    while i + 2 < n && nodes[i + 1] <= x {
                        i += 1;
                    }
                    let (a, b) = (sub(i)?, sub(i + 1)?);
                    let w = (x - nodes[i]) / (nodes[i + 1] - nodes[i]);
                    Some(a * (1. - w) + b * w)
                }
            }
        }
        rec(&self.axes, &self.data, f)
    }
}

#[derive(Clone, Debug)]
pub struct Engine {
    pub pitch: f64,
    pub yaw: f64,
    pub thrust: f64,
    pub isp: f64,
    pub area: f64,
}

impl Engine {
    pub fn dir(&self) -> V3 {
        [
            self.yaw.cos() * self.pitch.cos(),
            self.yaw.sin(),
            self.yaw.cos() * self.pitch.sin(),
        ]
    }
}

/// The configuration in force, and the state carried between phases.
#[derive(Clone, Debug)]
pub struct Env {
    pub planet: Planet,
    pub atmo: bool,
    pub wind: V3,
    pub ms: f64,
    pub area: f64,
    pub tables: [Option<Table>; 3],
    pub engines: Vec<Engine>,
    pub maxacc: f64,
    pub steer: [(String, [f64; 4]); 3],
    pub launch: V3,
    pub h: f64,
    pub crit: (String, f64),
}

impl Default for Env {
    fn default() -> Self {
        let s = || ("time".to_string(), [0.; 4]);
        Env {
            planet: Planet::from_json(&Value::from("spherical")),
            atmo: false,
            wind: [0.; 3],
            ms: 0.,
            area: 0.,
            tables: [None, None, None],
            engines: vec![],
            maxacc: f64::INFINITY,
            steer: [s(), s(), s()],
            launch: [0.; 3],
            h: 1.,
            crit: ("time_since_event".into(), 0.),
        }
    }
}

pub fn v3(v: &Value) -> V3 {
    [v[0].as_f64().unwrap(), v[1].as_f64().unwrap(), v[2].as_f64().unwrap()]
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Prim {
    pub t: f64,
    pub tse: f64,
    pub r: V3,
    pub v: V3,
    pub m: f64,
}

impl Env {
    /// Overwrites with what a phase specifies. `mp` is the propellant on
    /// board at the end of the previous phase. Returns the new mass, if it
    /// is overwritten.
    pub fn merge(&mut self, c: &Value, mp: f64) -> Option<f64> {
        let mut mass = None;
        if !c["planet_model"].is_null() {
            self.planet = Planet::from_json(&c["planet_model"]);
        }
        let a = &c["atmosphere"];
        if let Some(b) = a["enabled"].as_bool() {
            self.atmo = b;
        }
        if !a["wind"].is_null() {
            self.wind = v3(&a["wind"]);
        }
        let v = &c["vehicle"];
        if let Some(x) = v["reference_area"].as_f64() {
            self.area = x;
        }
        for (i, k) in ["drag_coeff", "lift_coeff", "side_force_coeff"].iter().enumerate() {
            if !v[k].is_null() {
                self.tables[i] = Some(Table::from_json(&v[k]));
            }
        }
        if let Some(e) = v["engines"].as_array() {
            self.engines = e
                .iter()
                .map(|e| Engine {
                    pitch: e["incidence"][0].as_f64().unwrap(),
                    yaw: e["incidence"][1].as_f64().unwrap(),
                    thrust: e["thrust_vac"].as_f64().unwrap(),
                    isp: e["isp_vac"].as_f64().unwrap(),
                    area: e["exit_area"].as_f64().unwrap(),
                })
                .collect();
        }
        if let Some(x) = v["structure_mass"].as_f64() {
            self.ms = x;
            mass = Some(x + mp);
        }
        if let Some(x) = v["propellant_mass"].as_f64() {
            mass = Some(self.ms + x);
        }
        if let Some(x) = c["max_acceleration"].as_f64() {
            self.maxacc = if x == -1. { f64::INFINITY } else { x };
        }
        for (i, k) in ["roll", "yaw", "pitch"].iter().enumerate() {
            let s = &c["steering"][k];
            if !s.is_null() {
                self.steer[i].0 = s[0].as_str().unwrap().into();
                let k = v3(&s[1]);
                self.steer[i].1[1..].copy_from_slice(&k);
            }
        }
        if let Some(x) = c["stepsize"].as_f64() {
            self.h = x;
        }
        if !c["end_criterion"].is_null() {
            self.crit =
                (c["end_criterion"][0].as_str().unwrap().into(), c["end_criterion"][1].as_f64().unwrap());
        }
        mass
    }

    /// Start of the simulation: position and velocity.
    pub fn init(&mut self, i: &Value) -> (V3, V3) {
        let g = |k: &str| i[k].as_f64().unwrap();
        let (lat, lon, az) = (g("latitude").to_radians(), g("longitude").to_radians(), g("azimuth").to_radians());
        let (r, gc) = init_position(&self.planet, lat, lon, g("altitude"));
        self.launch = [gc, lon, az];
        (r, cross([0., 0., self.planet.w], r))
    }

    pub fn i2b(&self, e: V3) -> M3 {
        let b = mm(&ry(e[2]), &mm(&rz(e[1]), &rx(e[0])));
        mm(&b, &i2l(self.launch))
    }

    /// All derived quantities. Err: no throttle keeps the limit.
    pub fn derive(&self, p: &Prim) -> Result<Snap, String> {
        let mut s = Snap { t: p.t, tse: p.tse, r: p.r, v: p.v, m: p.m, ..Default::default() };
        // burnt more than there is; below the air; lost in infinity
        if !(p.m > 0.) || !norm(p.r).is_finite() || self.atmo && !(self.planet.altitude(p.r) > -5e3) {
            return Err(UNSPECIFIED.into());
        }
        let w = self.planet.w;
        s.rp = mv(&rz(w * p.t), p.r);
        s.vp = sub(p.v, cross([0., 0., w], p.r));
        s.alt = self.planet.altitude(p.r);
        s.altg = self.planet.geopotential(s.alt);
        s.mp = p.m - self.ms;
        s.grav = self.planet.gravity(p.r);
        s.va = sub(s.vp, self.wind);
        s.mach = f64::INFINITY;
        if self.atmo {
            let mut a = air(s.altg);
            a.p *= OFF.get();
            a.rho *= OFF.get();
            a.sound *= OFF.get();
            s.temp = a.temp;
            s.p = a.p;
            s.rho = a.rho;
            s.mach = norm(s.va) / a.sound;
            s.q = 0.5 * a.rho * dot(s.va, s.va);
        }
        for i in 0..3 {
            let x = s.var(&self.steer[i].0);
            let c = self.steer[i].1;
            s.euler[i] = (c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x).to_radians() * TURN.get();
        }
        let i2b = self.i2b(s.euler);
        let vb = mv(&i2b, s.va);
        s.alpha = if vb[0].abs() < 1e-6 && vb[2].abs() < 1e-6 { 0. } else { vb[2].atan2(vb[0]) };
        s.aero = self.aero(&s);
        s.throttle = throttle(self.maxacc * p.m, s.aero, self.thrust(s.p))?;
        s.thrust = mul(s.throttle, self.thrust(s.p));
        s.mdot = -s.throttle * self.engines.iter().map(|e| e.thrust / (e.isp * G0)).sum::<f64>();
        s.vacc = mul(1. / p.m, add(s.aero, s.thrust));
        s.acc = add(mv(&tr(&i2b), s.vacc), s.grav);
        Ok(s)
    }

    pub fn aero(&self, s: &Snap) -> V3 {
        let c: Vec<f64> = self
            .tables
            .iter()
            .map(|t| t.as_ref().and_then(|t| t.at(&|n| s.var(n))).unwrap_or(0.))
            .collect();
        let (sa, ca) = s.alpha.sin_cos();
        let k = s.q * self.area;
        if k == 0. {
            return [0.; 3];
        }
        [-k * (ca * c[0] - sa * c[1]), k * c[2], -k * (sa * c[0] + ca * c[1])]
    }

    /// Thrust at full throttle.
    pub fn thrust(&self, p: f64) -> V3 {
        self.engines.iter().fold([0.; 3], |a, e| add(a, mul(e.thrust - e.area * p, e.dir())))
    }

    pub fn rk4(&self, p: &Prim, h: f64) -> Result<Snap, String> {
        let f = |dt: f64, k: &Option<([f64; 7], f64)>| -> Result<[f64; 7], String> {
            let mut q = *p;
            q.t += dt;
            q.tse += dt;
            if let Some((k, c)) = k {
                for i in 0..3 {
                    q.r[i] += c * k[i];
                    q.v[i] += c * k[3 + i];
                }
                q.m += c * k[6];
            }
            let s = self.derive(&q)?;
            Ok([s.v[0], s.v[1], s.v[2], s.acc[0], s.acc[1], s.acc[2], s.mdot])
        };
        let k1 = f(0., &None)?;
        let k2 = f(h / 2., &Some((k1, h / 2.)))?;
        let k3 = f(h / 2., &Some((k2, h / 2.)))?;
        let k4 = f(h, &Some((k3, h)))?;
        let mut d = [0.; 7];
        for i in 0..7 {
            d[i] = h / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]);
        }
        let q = Prim {
            t: p.t + h,
            tse: p.tse + h,
            r: add(p.r, [d[0], d[1], d[2]]),
            v: add(p.v, [d[3], d[4], d[5]]),
            m: p.m + d[6],
        };
        self.derive(&q)
    }
}

pub fn i2l(launch: V3) -> M3 {
    let (lat, lon, az) = (launch[0], launch[1], launch[2]);
    let up = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
    let north = [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()];
    let east = [-lon.sin(), lon.cos(), 0.];
    let z = add(mul(az.cos(), north), mul(az.sin(), east));
    [up, cross(z, up), z]
}

/// Position from geodetic latitude and longitude (rad), and altitude; and
/// the geocentric latitude.
pub fn init_position(pl: &Planet, lat: f64, lon: f64, alt: f64) -> (V3, f64) {
    // point of the ellipsoid whose normal has the geodetic latitude
    let (a2, b2) = (pl.re * pl.re, pl.rp * pl.rp);
    let d = (a2 * lat.cos().powi(2) + b2 * lat.sin().powi(2)).sqrt();
    let (x, z) = (a2 * lat.cos() / d, b2 * lat.sin() / d);
    let gc = z.atan2(x);
    let n = (x * x + z * z).sqrt();
    let k = 1. + alt / n;
    ([k * x * lon.cos(), k * x * lon.sin(), k * z], gc)
}

/// The throttle the manual describes: `limit` is the largest allowed force.
pub fn throttle(limit: f64, aero: V3, thrust: V3) -> Result<f64, String> {
    let tt = dot(thrust, thrust);
    let b2 = dot(aero, aero);
    let over = || Err("acceleration limit cannot be met".to_string());
    if limit == f64::INFINITY {
        return Ok(1.);
    }
    if tt == 0. {
        return if b2.sqrt() > limit * 1.001 { over() } else { Ok(1.) };
    }
    let at = dot(aero, thrust);
    let disc = at * at - tt * (b2 - limit * limit);
    if disc < 0. {
        return over();
    }
    let root = if b2 <= limit * limit {
        (-at + disc.sqrt()) / tt
    } else {
        // the smaller of the two throttles which meet the limit exactly
        (-at - disc.sqrt()) / tt
    };
    let t = root.clamp(0., 1.);
    if norm(add(aero, mul(t, thrust))) > limit * 1.001 {
        return over();
    }
    Ok(t)
}

thread_local! {
    /// Disturbance of the air.
    static OFF: std::cell::Cell<f64> = const { std::cell::Cell::new(1.) };
    /// Disturbance of the target values.
    static SHIFT: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) };
    /// Large angles are less exact.
    static TURN: std::cell::Cell<f64> = const { std::cell::Cell::new(1.) };
    /// Steps the last simulation tried.
    pub static TRIED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The behaviour the manual leaves open.
pub const UNSPECIFIED: &str = "unspecified";

#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Accepted states of each phase, including its initial state.
    pub phases: Vec<Vec<Snap>>,
    /// Rejected steps per phase.
    pub tries: Vec<usize>,
}

impl Trace {
    pub fn last(&self) -> &Snap {
        self.phases.last().unwrap().last().unwrap()
    }
}

/// Simulates a configuration. Err: the model aborts.
pub fn simulate(cfg: &Value, max_steps: usize) -> Result<Trace, String> {
    simulate_from(cfg, max_steps, 0., 0)
}

/// The same with a relative disturbance of the place and the air, and of the
/// target values; bit k of `pattern` inverts it for the targets of phase k.
pub fn simulate_from(cfg: &Value, max_steps: usize, eps: f64, pattern: u8) -> Result<Trace, String> {
    OFF.set(1. + 3e6 * eps.abs());
    SHIFT.set(1e9 * eps);
    TURN.set(1. + 2e-3 * eps);
    let r = simulate_(cfg, max_steps, eps, pattern);
    OFF.set(1.);
    SHIFT.set(0.);
    TURN.set(1.);
    r
}

fn simulate_(cfg: &Value, max_steps: usize, eps: f64, pattern: u8) -> Result<Trace, String> {
    TRIED.set(0);
    let mut env = Env::default();
    let mut tr = Trace::default();
    let mut prev: Option<Snap> = None;
    for c in cfg.as_array().unwrap() {
        let mp = prev.as_ref().map(|s| s.mp).unwrap_or(0.);
        let mass = env.merge(c, mp);
        let mut p = match &prev {
            None => {
                let (r, v) = env.init(&c["init"]);
                let r = [r[0] * (1. + eps), r[1] * (1. - eps), r[2] * (1. + eps)];
                Prim { t: 0., tse: 0., r, v, m: 0. }
            }
            Some(s) => Prim { t: s.t, tse: 0., r: s.r, v: s.v, m: s.m },
        };
        if let Some(m) = mass {
            p.m = m;
        }
        let e = prev.as_ref().map(|s| s.euler).unwrap_or([0.; 3]);
        for i in 0..3 {
            env.steer[i].1[0] = e[i].to_degrees();
        }
        // the errors of successive events do not always cancel
        let sign = if pattern >> (tr.phases.len() % 8) & 1 == 1 { -1. } else { 1. };
        SHIFT.set(1e9 * eps * sign);
        let (states, tries) = run_phase(&env, p, max_steps)?;
        prev = states.last().cloned();
        tr.phases.push(states);
        tr.tries.push(tries);
    }
    Ok(tr)
}

pub fn prim(s: &Snap) -> Prim {
    Prim { t: s.t, tse: s.tse, r: s.r, v: s.v, m: s.m }
}

fn run_phase(env: &Env, p: Prim, max_steps: usize) -> Result<(Vec<Snap>, usize), String> {
    let mut cur = env.derive(&p)?;
    let mut out = vec![cur.clone()];
    // times are met exactly, other variables to 1e-3
    let timely = env.crit.0 == "time" || env.crit.0 == "time_since_event";
    let shift = if timely { 0. } else { SHIFT.get() };
    let y = |s: &Snap| s.var(&env.crit.0) - env.crit.1 - shift;
    for _ in 0..max_steps {
        TRIED.set(TRIED.get() + 1);
        let new = env.rk4(&prim(&cur), env.h)?;
        let (y0, y1) = (y(&cur), y(&new));
        if out.len() == 1 && y0.abs() < 1e-3 && y1.abs() >= 1e-3 {
            // was there from the start (and stays there for a while)
            let dt = (shift * env.h / (y1 - y0)).abs().min(env.h);
            out.push(env.rk4(&prim(&cur), dt)?);
            return Ok((out, 1));
        }
        if y1.abs() < if timely { 1e-3 } else { 1e-9 } {
            out.push(new);
            return Ok((out, 0));
        }
        if y0 * y1 < 0. {
            // what happens on the way depends on where the search looks
            let open = |_: String| UNSPECIFIED.to_string();
            let mut changes = 0;
            let mut sign = y0;
            for k in 1..=16 {
                let yk = y(&env.rk4(&prim(&cur), env.h * k as f64 / 16.).map_err(open)?);
                if yk * sign < 0. {
                    changes += 1;
                    sign = yk;
                }
            }
            if changes != 1 {
                // several crossings within a step
                return Err(UNSPECIFIED.into());
            }
            let (mut a, mut b) = (0., env.h);
            let mut end = new;
            for _ in 0..60 {
                let c = 0.5 * (a + b);
                // the search may get there in one or more steps
                end = if shift == 0. {
                    env.rk4(&prim(&cur), c).map_err(open)?
                } else {
                    // first part of the way in percent
                    let f = [0.5, 0.95, 0.25, 0.75, 0.05][(shift.abs() * 1e4).round() as usize % 5];
                    env.rk4(&prim(&env.rk4(&prim(&cur), c * f).map_err(open)?), c * (1. - f)).map_err(open)?
                };
                if y(&end).abs() < if timely { 1e-13 } else { 1e-9 } {
                    break;
                }
                if y(&end) * y0 > 0. {
                    a = c;
                } else {
                    b = c;
                }
            }
            out.push(end);
            return Ok((out, 1));
        }
        cur = new;
        out.push(cur.clone());
    }
    Err("endless".into())
}
