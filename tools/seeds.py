"""Planted bugs: edits to the original code, and what shows them."""
import json
def J(o): return 'r#"' + json.dumps(o) + '"#'
def init(lat=0., lon=0., az=90., alt=0.): return dict(latitude=lat, longitude=lon, azimuth=az, altitude=alt)
def eng(thrust=3e4, isp=300., inc=(0., 0.), area=0.): return dict(incidence=list(inc), thrust_vac=thrust, isp_vac=isp, exit_area=area)
def custom(re=6.4e6, rp=6.4e6, mu=4e14, j=(0., 0., 0.), w=7e-5): return {"custom": dict(equatorial_radius=re, polar_radius=rp, gravitational_parameters=[mu, *j], rotation_rate=w)}
def first(t=10., h=1., **k):
    d = dict(init=init(), vehicle=dict(structure_mass=1000., propellant_mass=0.), stepsize=h, end_criterion=["time_since_event", t])
    for a, b in k.items():
        if a == "vehicle": d["vehicle"].update(b)
        else: d[a] = b
    return d
def end(t): return ["time_since_event", t]
def konst(v): return {"x": ["time", [0.]], "data": [v]}
PH, VE, PL, ST, TB, AT, LI, TR, RK, CO, SS, IN = ("sim/src/" + f for f in ("phase.rs", "vehicle.rs", "planet.rs", "state.rs", "utils/tables/mod.rs", "atmosphere/mod.rs", "utils/tables/linear_interpolation.rs", "transformations.rs", "integration/runge_kutta.rs", "config.rs", "atmosphere/standard_atmosphere_1962.rs", "integration/mod.rs"))
SE, LB = "sim/src/steering.rs", "sim/src/lib.rs"
SEEDS = []
def seed(id, property, edits, needs, breaks, demo=None, sh=None, copy=()):
    s = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, copy=list(copy))
    if sh: s["sh"] = sh
    else: s["demo"] = demo
    SEEDS.append(s)

seed("b02-relative-tolerance", "C02", [(PH, "if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {", "if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs()\n            < 1e-3 * self.end_criterion.1.abs().max(1.)\n        {")],
 "an end criterion with a target value far from one, and a step which comes within a per mille of it", "phases end before (or after) the variable gets to its target",
 f'let s = run!({J([first(vehicle=dict(propellant_mass=500., engines=[eng()]), end_criterion=["altitude", 90000.], init=init(alt=89000.), planet_model=custom(mu=1.))])});\nclose("altitude", s.altitude, 90000., 1e-3);')

seed("b04-stepsize-at-most-one", "C04", [(PH, "        self.stepsize = self.base_stepsize;\n        self.steering.init", "        self.stepsize = self.base_stepsize.min(1.);\n        self.steering.init")],
 "a step size above one second in the second or a later phase, or any above one", "larger step sizes than one second are not used",
 f'let (s, t) = (run!({J([first(200., 50.)])}), run!({J([first(200., 1.)])}));\nlet d = (s.position - t.position).norm();\nprintln!("difference {{d}}");\nassert!(d > 1e-7, "a step of 50 s gives the same flight as one of 1 s");')

seed("b06-j4-in-z", "C06", [(PL, "D * R.powi(4) * (15. / 7. - 10. * Z.powi(2) + 9. * Z.powi(4)) * position.z)", "D * R.powi(4) * (15. / 7. - 10. * Z.powi(2) + 9. * Z.powi(2)) * position.z)")],
 "a planet model with the fourth harmonic, away from the equator", "the gravity field is no gradient any more",
 f'''let c = {J([first(600., 2., init=init(50., 10., 0., 5e5), planet_model=custom(w=1.2e-3, j=(0., 0., -1e-2)))])};
let e = |s: &sim_state| 0.0;
''' .replace("let e = |s: &sim_state| 0.0;\n", "") + '''let pot = |r: f64, z: f64| { let s = z / r; let p4 = (35. * s.powi(4) - 30. * s * s + 3.) / 8.; -4e14 / r * (1. - (-1e-2) * (6.4e6 / r).powi(4) * p4) };
let s = run!(c);
let a = run!(&c.replace("600.0", "2.0"));
let en = |v: f64, r: f64, z: f64| 0.5 * v * v + pot(r, z);
let (e0, e1) = (en(a.velocity.norm(), a.position.norm(), a.position.z), en(s.velocity.norm(), s.position.norm(), s.position.z));
close("energy", e1, e0, 1e-7 * e0.abs());''')

seed("b07-j3-constant", "C07", [(PL, "                            - 3. / 5. * r.powi(2))", "                            - 3. / 7. * r.powi(2))")],
 "a planet model with the third harmonic (smithsonian or custom)", "the constant part of the third harmonic along the axis is wrong",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(0., 0., 0., 0.), planet_model=custom(j=(0., 1e-2, 0.)))])});\nclose("gravity", s.gravity_acceleration.z, 1.5 * 1e-2 * 4e14 / 6.4e6f64.powi(2), 1e-6);')

seed("b08-retrograde", "C08", [(PL, "velocity - vector![0., 0., self.rotation_rate].cross(&position)", "velocity - vector![0., 0., self.rotation_rate.abs()].cross(&position)")],
 "a planet which rotates backwards", "planet-relative velocity assumes prograde rotation; the start is at rest either way, but inertially moves the wrong way",
 f'let s = run!({J([first(1e-9, 1e-9, planet_model=custom(w=-7e-5))])});\nclose("velocity", s.velocity.y, -7e-5 * 6.4e6, 1e-3);')

seed("b09-launch-frame-azimuth", "C09", [(TR, "az.cos()*long.cos() + az.sin()*lat.sin()*long.sin()", "az.cos()*long.cos() + az.sin()*lat.cos()*long.sin()")],
 "a launch site away from longitude zero and from 45 degrees of latitude, steering or thrust off the vertical", "the lateral axis of the launch frame is wrong",
 f'''let s = run!({J([first(1e-9, 1e-9, init=init(20., 70., 30., 0.), planet_model=custom(mu=1e-9), vehicle=dict(engines=[eng(1e4, 1e9, (0., 1.5707963267948966))]))])});
let (la, lo, az) = (20f64.to_radians(), 70f64.to_radians(), 30f64.to_radians());
close("lateral axis", s.acceleration.y / 10., az.cos() * lo.cos() + az.sin() * la.sin() * lo.sin(), 1e-9);''')

seed("b10-top-layer", "C10", [(SS, "    for i in 1..STD_ATMOS_TABLE.len() {\n", "    for i in 1..STD_ATMOS_TABLE.len() - 1 {\n")],
 "a flight in the second highest layer", "the highest layer is used below its base",
 f'''let f = |a: f64| run!(&{J([first(1e-9, 1e-9, init=init(alt=123456.), atmosphere=dict(enabled=True))])}.replace("123456.0", &a.to_string())).temperature;
let mut last = f(5.9e5);
for k in 1..200 {{ let t = f(5.9e5 + 1e3 * k as f64); close("temperature", t, last, 6.); last = t; }}''')

seed("b11-wind-needs-air", "C11", [(AT, "        state.velocity_planet - self.wind\n", "        match self.model {\n            AtmosphereModel::NoAtmosphere => state.velocity_planet,\n            _ => state.velocity_planet - self.wind,\n        }\n")],
 "a wind given with the atmosphere disabled", "the wind is ignored where there is no atmosphere, unlike documented",
 f'let s = run!({J([first(1e-9, 1e-9, atmosphere=dict(enabled=False, wind=[3., 4., 0.]))])});\nclose("airspeed", s.velocity_atmosphere.norm(), 5., 1e-6);')

seed("b12-trilinear-clamped", "C12", [(LI, "    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);\n", "    let x = x.clamp(x_arr[0], x_arr[x_arr.len() - 1]);\n    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);\n")],
 "a table of three variables looked up outside the range of its first one", "three-dimensional tables hold their edge values in the first variable while all others extrapolate",
 f'''let t = |a: f64| run!(&{J([first(1e-9, 1e-9, atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1., drag_coeff={"x": ["mass", [111., 222.]], "y": ["altitude", [0., 1.]], "z": ["time", [0., 1.]], "data": [[[1., 1.], [1., 1.]], [[2., 2.], [2., 2.]]]}))])}.replace("111.0", &a.to_string()).replace("222.0", &(a + 100.).to_string()));
let s = t(500.);
close("drag coefficient", -s.aero_force_body.x / s.dynamic_pressure, 6., 1e-9);''')

seed("b13-side-force-sign", "C13", [(VE, "vector![-ca, cy, -cn]", "vector![-ca, -cy, -cn]")],
 "a side force table", "side force acts to the wrong side",
 f'let s = run!({J([first(1e-9, 1e-9, atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1., side_force_coeff=konst(0.5)))])});\nclose("side force", s.aero_force_body.y / s.dynamic_pressure, 0.5, 1e-9);')

seed("b14-no-negative-thrust", "C14", [(VE, "] * (self.thrust_vac - self.exit_area * pressure_atmos)", "] * (self.thrust_vac - self.exit_area * pressure_atmos).max(0.)")],
 "an engine whose exit area times the pressure exceeds its vacuum thrust, beside another", "the thrust of such an engine is cut off at zero",
 f'let s = run!({J([first(1e-9, 1e-9, atmosphere=dict(enabled=True), vehicle=dict(engines=[eng(1e5), eng(1e3, area=0.5)]))])});\nclose("thrust", s.thrust_force_body.x, 1.01e5 - 0.5 * s.pressure, 1e-3);')

seed("b15-longer-solution", "C15", [(VE, "    if b > a {\n        beta = PI - beta;\n    }\n", "    if b > a && alpha < PI / 4. {\n        beta = PI - beta;\n    }\n")],
 "aerodynamic deceleration beyond the limit at an oblique angle to the thrust", "of two throttles which meet the limit the larger is taken (or none found, though the smaller one would do)",
 f'''let base = {J([first(1e-9, 1e-9, init=init(alt=5000.), max_acceleration=10., atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1000.5, drag_coeff=konst(1.), engines=[eng(1e4, inc=(0.87266, 0.))]))])};
let q = run!(&base.replace("1000.5", "0.0")).dynamic_pressure;
let s = run!(&base.replace("1000.5", &(11e3 / q).to_string()));
let (c, b) = ((0.87266f64).cos(), 11e3f64);
let want = b * c - (b * b * c * c - (b * b - 1e8)).sqrt();
close("thrust", s.thrust_force_body.norm(), want, 1.);''')

seed("b16-even-polynomial", "C16", [(SE, ".map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))", ".map(|(i, coeff)| coeff * var.abs().powi(i.try_into().unwrap()))")],
 "steering by a variable which becomes negative", "odd terms of the steering polynomial lose their sign",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(0., 200.), planet_model=custom(w=0.), steering=dict(yaw=["position1", [1e-6, 0., 0.]]))])});\nclose("yaw", s.euler_angles[1].to_degrees(), 1e-6 * 6.4e6 * (-220f64).to_radians().cos(), 1e-6);')

seed("b17-roll-yaw-element", "C17", [(TR, "roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();", "roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*yaw.cos()*pitch.sin();")],
 "yaw and pitch combined", "one element of the attitude matrix is wrong when the vehicle is yawed and pitched",
 f'let s = run!({J([first(1e-9, 1e-9, planet_model=custom(mu=1e-9, w=0.), steering=dict(yaw=["mass", [0.04, 0., 0.]], pitch=["mass", [0.03, 0., 0.]]), vehicle=dict(engines=[eng(1e4, 1e9)]))])});\nclose("acceleration", s.acceleration.norm(), 10., 1e-9);')

seed("b18-gravity-component", "C18", [(ST, "StateVariable::GravityAcceleration2 => state.gravity_acceleration[1],", "StateVariable::GravityAcceleration2 => state.gravity_acceleration[2],")],
 "the variable gravity_acceleration2", "the name stands for the third component",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(0., 90.), steering=dict(yaw=["gravity_acceleration2", [1., 0., 0.]]))])});\nclose("yaw", s.euler_angles[1].to_degrees(), s.gravity_acceleration.y, 1e-6);')

seed("b19-inner-axis-unchecked", "C19", [(TB, "                for z_data in y_data.iter() {\n                    validate(z.1, z_data)?;\n                }\n", "                if let Some(z_data) = y_data.first() {\n                    validate(z.1, z_data)?;\n                }\n")],
 "a table of three variables with a ragged innermost row", "rows of other lengths than the first are accepted; looking them up aborts or yields nonsense",
 f'let r = load({J([first(vehicle=dict(drag_coeff={"x": ["mass", [0., 1.]], "y": ["altitude", [0., 1.]], "z": ["time", [0., 1.]], "data": [[[1., 1.], [1., 1.]], [[2., 2.], [2., 2., 3.]]]}))])});\nassert!(r.is_err(), "a ragged table is accepted");')

seed("b20-refuel-only-if-changed", "C20", [(PH, "            if let Some(config) = config.propellant_mass {\n                phase.state.mass", "            let unchanged = prev_phase.map(|p| p.vehicle.initial_propellant_mass);\n            if let Some(config) = config.propellant_mass.filter(|m| unchanged != Some(*m)) {\n                phase.state.mass")],
 "a later phase which gives the same propellant mass as before", "giving the same propellant mass again does not refill the tanks",
 f'let s = run!({J([first(5., vehicle=dict(propellant_mass=500., engines=[eng()])), dict(vehicle=dict(propellant_mass=500., engines=[]))])});\nclose("propellant", s.propellant_mass, 500., 1e-9);')

seed("b21-layer-cache", "C21", [(SS, "fn get_table_row(geopotential_alt: f64) -> (f64, f64, f64, f64) {\n    for i in 1..STD_ATMOS_TABLE.len() {\n        if STD_ATMOS_TABLE[i].0 > geopotential_alt {\n            return STD_ATMOS_TABLE[i - 1];\n        }\n    }\n    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n",
  "fn get_table_row(geopotential_alt: f64) -> (f64, f64, f64, f64) {\n    thread_local! {\n        // the layer rarely changes, so start with the last one\n        static LAYER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n    }\n    LAYER.with(|layer| {\n        let mut i = layer.get();\n        if geopotential_alt < STD_ATMOS_TABLE[i].0 - 1e4 {\n            i = 0;\n        }\n        while i + 1 < STD_ATMOS_TABLE.len() && STD_ATMOS_TABLE[i + 1].0 <= geopotential_alt {\n            i += 1;\n        }\n        layer.set(i);\n        STD_ATMOS_TABLE[i]\n    })\n")],
 "a flight which descends from one layer of the atmosphere to the one below, or follows such a run", "the layer used depends on what was looked up before, also in earlier runs",
 f'''let low = {J([first(1e-9, 1e-9, init=init(alt=10000.), atmosphere=dict(enabled=True))])};
let a = run!(low);
run!(&low.replace("10000.0", "15000.0"));
let b = run!(low);
close("temperature", b.temperature, a.temperature, 0.);''')

seed("b22-exit-status", "C22", [("src/main.rs", "    let sim = Simulation::from_file(args.config)?;\n\n    sim.run();\n", "    match Simulation::from_file(&args.config) {\n        Ok(sim) => {\n            sim.run();\n        }\n        Err(err) => eprintln!(\"Could not load {}: {err}\", args.config.display()),\n    }\n")],
 "a configuration which cannot be read or parsed", "the program reports success although nothing was simulated",
 sh='''echo '[{"init": 1}]' > "$W/bad.json"
"$P" -c "$W/bad.json" > /dev/null 2>&1 && { echo "exit status 0 for an invalid file"; exit 1; }
"$P" -c "$W/none.json" > /dev/null 2>&1 && { echo "exit status 0 for a missing file"; exit 1; }
exit 0
''')

seed("b23-steering-start", "C23", [(PH, "        self.steering.init(self.state.euler_angles);\n", "        if self.state.altitude > 0. {\n            self.steering.init(self.state.euler_angles);\n        }\n")],
 "a phase boundary below the surface (e.g. a launch pad below the ellipsoid) in a steered flight", "the attitude jumps back where a flight is split below altitude zero",
 f'''let one = {J([first(20., vehicle=dict(propellant_mass=900., engines=[eng(5e4)]), init=init(alt=-5000.), steering=dict(pitch=["time_since_event", [-1., 0., 0.]]))])};
let two = {J([first(10., vehicle=dict(propellant_mass=900., engines=[eng(5e4)]), init=init(alt=-5000.), steering=dict(pitch=["time_since_event", [-1., 0., 0.]])), {}])};
close("pitch", run!(two).euler_angles[2], run!(one).euler_angles[2], 1e-9);''')

seed("b24-southern-altitude", "C24", [(PL, "        let geocentric_lat = f64::asin(position.z / position.norm());\n", "        let geocentric_lat = f64::asin((position.z / position.norm()).max(-0.5));\n")],
 "a flight south of 30 degrees south over an oblate planet", "altitude in the far south is computed with the radius at 30 degrees",
 f'''let f = |la: f64| run!(&{J([first(1e-9, 1e-9, init=init(12345.), planet_model="smithsonian")])}.replace("12345.0", &la.to_string())).altitude;
close("altitude", f(-60.), f(60.), 1e-6);''')

seed("b25-inertial-position-printed", "C25", [(PH, "                self.state.position_planet,\n                self.state.velocity,\n", "                self.state.position,\n                self.state.velocity,\n")],
 "a flight long enough for the planet to turn", "the inertial position is printed where the planet-fixed one is documented",
 sh='''echo '[{"init": {"latitude": 0, "longitude": 0, "azimuth": 90, "altitude": 100000}, "planet_model": {"custom": {"equatorial_radius": 6400000.0, "polar_radius": 6400000.0, "gravitational_parameters": [1.0, 0.0, 0.0, 0.0], "rotation_rate": 0.01}}, "vehicle": {"structure_mass": 1.0}, "end_criterion": ["time_since_event", 100.0], "stepsize": 100.0}]' > "$W/c.json"
"$P" -c "$W/c.json" > "$W/out" || exit 2
# position (6.5e6, 6.5e6) turned back by one radian: (8981526, -1957591)
grep -q 8981526 "$W/out" || { echo "planet-fixed position expected"; cat "$W/out"; exit 1; }
''')

seed("b01-wind-forgotten", "C01", [(AT, "                self.model = AtmosphereModel::NoAtmosphere;\n", "                *self = Self::default();\n")],
 "wind in an earlier phase, and a later phase which disables the atmosphere without giving the wind again", "disabling the atmosphere also resets the wind",
 f'let s = run!({J([first(1., atmosphere=dict(enabled=True, wind=[3., 4., 0.]), planet_model=custom(w=0., mu=1.)), dict(atmosphere=dict(enabled=False))])});\nclose("airspeed", s.velocity_atmosphere.norm(), 5., 1e-3);')

seed("b03-milliseconds", "C03", [(IN, "                func(State::from_vec(time_vec, state_vec))\n", "                // do not let rounding errors add up over many steps\n                let time_vec = time_vec.map(|t| (t * 1e3).round() / 1e3);\n                func(State::from_vec(time_vec, state_vec))\n")],
 "a step size which is no multiple of a millisecond", "the clocks run faster or slower than the motion",
 f'let s = run!({J([first(16., 1/128, init=init(0., 0., 90., 1e5), planet_model=custom(w=1e-3, mu=1.))])});\nclose("velocity times time", s.position.y, 1e-3 * 6.5e6 * s.time, 1e-3 * s.position.y);')

seed("b05-stage-clock", "C05", [(IN, "            func(State::from_vec(t, s)).to_differentials_vector()\n", "            let t = vector![state.time, t[1]];\n            func(State::from_vec(t, s)).to_differentials_vector()\n")],
 "steering or tables over the simulation time (not the time since the event)", "within each step the simulation time stands still: first order only",
 f"""let f = |h: f64| run!(&{J([first(16., 12345., planet_model=custom(mu=1., w=0.), steering=dict(pitch=["time", [10., 0., 0.]]), vehicle=dict(engines=[eng(1e4, 1e9)]))])}.replace("12345.0", &h.to_string()));
let (a, b, c) = (f(4.), f(2.), f(1.));
let r = (a.position - b.position).norm() / (b.position - c.position).norm();
println!("ratio {{r}}");
assert!(r > 10., "halving the step size divides the error by {{r}} only");""")

seed("b26-at-least-a-kilogram", "C26", [(PH, "            (state.aero_force_body + state.thrust_force_body) / state.mass;\n", "            (state.aero_force_body + state.thrust_force_body) / state.mass.max(1.);\n")],
 "a vehicle of less than one kilogram", "light vehicles accelerate too slowly",
 f'let s = run!({J([first(1e-9, 1e-9, planet_model=custom(mu=1., w=0.), vehicle=dict(structure_mass=0.25, engines=[eng(10., 1e9)]))])});\nclose("acceleration", s.acceleration.norm(), 40., 1e-6);')

# second round

seed("c01-copied-coefficient", "C01", [(VE, "            self.drag_coeff = config.clone();\n", "            self.drag_coeff = config.clone();\n            self.side_force_coeff = Table::default();\n")],
 "a side force table in one phase and a drag table alone in a later one", "a new drag table discards the side force table",
 f'let s = run!({J([first(1., atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1e-3, drag_coeff=konst(0.5), side_force_coeff=konst(0.5))), dict(vehicle=dict(drag_coeff=konst(0.25)))])});\nclose("side force", s.aero_force_body.y / s.dynamic_pressure / 1e-3, 0.5, 1e-9);')

seed("c04-never-coarser", "C04", [(PH, "            phase.stepsize = config;\n", "            phase.stepsize = config;\n            let config = if prev_phase.is_some_and(|p| p.state.altitude < 1e3) { config.min(phase.base_stepsize) } else { config };\n")],
 "a larger step size in a later phase which starts near the surface", "near the surface the step size is never increased",
 f'let (s, t) = (run!({J([first(2., 0.5, init=init(alt=500.), planet_model=custom(w=1e-3)), dict(stepsize=50., end_criterion=end(100.))])}), run!({J([first(2., 0.5, init=init(alt=500.), planet_model=custom(w=1e-3)), dict(stepsize=0.5, end_criterion=end(100.))])}));\nassert!(s.position != t.position, "steps of 50 s and of 0.5 s give the same flight");')

seed("c05-frozen-mass", "C05", [(IN, "        let converted_func = |t: Vector2<f64>, s: SVector<f64, 7>| {\n", "        let converted_func = |t: Vector2<f64>, mut s: SVector<f64, 7>| {\n            // the mass hardly changes within a step of less than half a second\n            if stepsize < 0.5 {\n                s[6] = state.mass;\n            }\n")],
 "step sizes below half a second with a burning engine", "the mass is held within each step: first order only",
 f"""let f = |h: f64| run!(&{J([first(16., 12345., planet_model=custom(mu=1., w=0.), vehicle=dict(propellant_mass=900., engines=[eng(1e5, 200.)]))])}.replace("12345.0", &h.to_string()));
let (a, b, c) = (f(0.4), f(0.2), f(0.1));
let r = (a.position - b.position).norm() / (b.position - c.position).norm();
println!("ratio {{r}}");
assert!(r > 6., "halving the step size divides the error by {{r}} only");""")

seed("c06-far-field", "C06", [(PL, "        let r = position.norm();\n        let R", "        // far away gravity does not matter\n        let r = position.norm().min(1e8);\n        let R")],
 "a flight farther than 100000 km from the centre", "gravity does not decrease with the square of the distance there",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e9))])});\nclose("gravity", s.gravity_acceleration.norm(), 3.986e14 / 1.00638e9f64.powi(2), 1e-5);')

seed("c07-geopotential-radius", "C07", [(PL, "        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);\n", "        let avg_altitude = self.equatorial_radius.max(self.polar_radius);\n")],
 "an oblate planet", "geopotential altitude uses the equatorial instead of the mean radius",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e6), planet_model=custom(rp=6e6))])});\nclose("geopotential altitude", s.altitude_geopotential, 6.2e6 * 1e6 / 7.2e6, 1.);')

seed("c08-event-time", "C08", [(PH, "        let inertial_to_planet = inertial_to_planet(state.time, self.planet.rotation_rate);\n", "        let inertial_to_planet =\n            inertial_to_planet(state.time_since_event, self.planet.rotation_rate);\n")],
 "a second phase", "planet-fixed positions start anew at every event",
 f'let s = run!({J([first(10., planet_model=custom(w=1e-2, mu=1.)), dict(end_criterion=end(5.))])});\nlet a = 6.4e6f64;\nlet (x, y) = (a, a * 0.15); let (c, n) = (0.15f64.cos(), 0.15f64.sin());\nclose("position", s.position_planet.y, -n * x + c * y, 1e-2);')

seed("c09-geodetic-frame", "C09", [(PH, "        self.launch = [geocentric_lat, long, az];\n", "        self.launch = [lat, long, az];\n")],
 "an oblate planet", "the launch frame uses the geodetic latitude",
 f"""let s = run!({J([first(1e-9, 1e-9, init=init(45., 0., 30., 0.), planet_model=custom(rp=6e6, mu=1e-9), vehicle=dict(engines=[eng(1e4, 1e9)]))])});
let k = (6.4f64 / 6.).powi(2);
close("vertical", s.acceleration.z / 10., (1. / k).atan().sin(), 1e-9);""")

seed("c10-gradient-typo", "C10", [(SS, "        0.29274135e-2 * KELVIN_PER_RANKIN", "        0.29247135e-2 * KELVIN_PER_RANKIN")],
 "a flight between 190 and 230 km", "two digits of a temperature gradient are swapped",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=2.2e5), atmosphere=dict(enabled=True))])});\nlet h = s.altitude_geopotential / 0.3048;\nclose("temperature", s.temperature * 1.8, 2431.17 + 0.29274135e-2 * (h - 605268.45), 1e-3);')

seed("c11-no-air-no-wind", "C11", [(AT, "        state.velocity_planet - self.wind\n", "        if state.altitude_geopotential > 2.0e5 {\n            // no wind above the weather\n            return state.velocity_planet;\n        }\n        state.velocity_planet - self.wind\n")],
 "wind, above 200 km", "high above the wind is ignored",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=3e5), atmosphere=dict(enabled=True, wind=[3., 4., 0.]))])});\nclose("airspeed", s.velocity_atmosphere.norm(), 5., 1e-6);')

seed("c12-third-axis", "C12", [(TB, "                    let z = self.z.0.get_value(state);\n", "                    let z = self.y.0.get_value(state);\n")],
 "a table of three variables", "the third variable of a table is not looked up",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=0.5), atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1., drag_coeff={"x": ["mass", [0., 1.]], "y": ["time", [0., 1.]], "z": ["altitude", [0., 1.]], "data": [[[0., 1.], [0., 1.]], [[0., 1.], [0., 1.]]]}))])});\nclose("drag coefficient", -s.aero_force_body.x / s.dynamic_pressure, 0.5, 1e-9);')

seed("c13-normal-force-forward", "C13", [(VE, "        let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;\n", "        let cn = state.alpha.sin() * cd + state.alpha.cos().abs() * cl;\n")],
 "lift while flying backwards", "lift changes sign when the air comes from behind",
 f'let s = run!({J([first(1e-9, 1e-9, atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(reference_area=1., lift_coeff=konst(0.5)))])});\nclose("normal force", s.aero_force_body.z / s.dynamic_pressure, 0.5, 1e-9);')

seed("c14-double-incidence", "C14", [(VE, "            self.incidence[1].cos() * self.incidence[0].sin()\n", "            self.incidence[0].sin()\n")],
 "an engine inclined in both directions", "such an engine has too much thrust",
 f'let s = run!({J([first(1e-9, 1e-9, vehicle=dict(engines=[eng(1e4, inc=(0.6, 0.8))]))])});\nclose("thrust", s.thrust_force_body.norm(), 1e4, 1e-6);')

seed("c15-idle", "C15", [(VE, "            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),\n", "            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0.02, 1.),\n")],
 "a limit which needs less than a fiftieth of the thrust", "the engines do not throttle below two percent",
 f'let s = run!({J([first(1e-9, 1e-9, max_acceleration=0.5, atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(structure_mass=1e5, engines=[eng(1e7)]))])});\nclose("throttle", s.throttle, 0.005, 1e-9);')

seed("c16-yaw-range", "C16", [(SE, "        self.yaw.1[0] = euler_angles[1].to_degrees();\n", "        self.yaw.1[0] = euler_angles[1].to_degrees().clamp(-90., 90.);\n")],
 "yaw beyond 90 degrees at an event", "yaw jumps back to 90 degrees at the event",
 f'let s = run!({J([first(10., steering=dict(yaw=["time_since_event", [10., 0., 0.]])), dict(steering=dict(yaw=["time_since_event", [0., 0., 0.]]))])});\nclose("yaw", s.euler_angles[1].to_degrees(), 100., 1e-2);')

seed("c17-rolled-pitch", "C17", [(TR, "roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()", "roll.sin()*yaw.sin()*pitch.sin() + (roll.cos() + roll.sin()*yaw.sin())*pitch.cos() - roll.sin()*yaw.sin()*pitch.cos()*yaw.cos().abs().max(yaw.cos())")],
 "roll, yaw and pitch combined with yaw beyond 0", "one element of the attitude matrix is wrong when all three angles are set",
 f'let s = run!({J([first(1e-9, 1e-9, planet_model=custom(mu=1e-9, w=0.), steering=dict(roll=["mass", [0.02, 0., 0.]], yaw=["mass", [0.04, 0., 0.]], pitch=["mass", [0.03, 0., 0.]]), vehicle=dict(engines=[eng(1e4, 1e9, (1.5707963267948966, 0.))]))])});\nclose("acceleration", s.acceleration.norm(), 10., 1e-9);')

seed("c18-air-for-planet", "C18", [(ST, "StateVariable::VelocityAtmosphereNorm => state.velocity_atmosphere.norm(),", "StateVariable::VelocityAtmosphereNorm => state.velocity_planet.norm(),")],
 "the variable velocity_atmosphere_norm with wind", "the name stands for the speed over ground",
 f'let s = run!({J([first(1e-9, 1e-9, atmosphere=dict(enabled=False, wind=[3., 4., 0.]), steering=dict(yaw=["velocity_atmosphere_norm", [1., 0., 0.]]))])});\nclose("yaw", s.euler_angles[1].to_degrees(), 5., 1e-6);')

seed("c19-steering-typo", "C19", [(CO, "#[derive(Debug, Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct SteeringConfig {", "#[derive(Debug, Deserialize)]\npub struct SteeringConfig {")],
 "a misspelt name within the steering", "unknown names within the steering are ignored",
 f'let r = load({J([first(steering=dict(ptich=["time", [1., 0., 0.]]))])});\nassert!(r.is_err(), "an unknown name is accepted");')

seed("c20-massless-stage", "C20", [(PH, "            if let Some(config) = config.structure_mass {\n", "            if let Some(config) = config.structure_mass.filter(|mass| *mass > 0.) {\n")],
 "a later phase which sets the structure mass to zero", "dropping all structure leaves the total mass as it was: the structure becomes propellant",
 f'let s = run!({J([first(1., vehicle=dict(propellant_mass=100.)), dict(vehicle=dict(structure_mass=0.))])});\nclose("mass", s.mass, 100., 1e-6);\nclose("propellant", s.propellant_mass, 100., 1e-6);')

seed("c21-gravity-memo", "C21", [(PL, "    pub fn gravity(&self, position: Vector3<f64>) -> Vector3<f64> {\n        let r = position.norm();\n", "    pub fn gravity(&self, position: Vector3<f64>) -> Vector3<f64> {\n        thread_local! {\n            // the start and the end of a step share their position\n            static LAST: std::cell::Cell<([f64; 3], [f64; 3])> = const { std::cell::Cell::new(([0.; 3], [0.; 3])) };\n        }\n        let (p, g) = LAST.with(|last| last.get());\n        if p == [position.x, position.y, position.z] {\n            return vector![g[0], g[1], g[2]];\n        }\n        let g = self.gravity_at(position);\n        LAST.with(|last| last.set(([position.x, position.y, position.z], [g.x, g.y, g.z])));\n        g\n    }\n\n    #[allow(non_snake_case)]\n    fn gravity_at(&self, position: Vector3<f64>) -> Vector3<f64> {\n        let r = position.norm();\n")],
 "two runs (or phases) which look up one position on different planets one after the other", "gravity is that of the other planet",
 f"""let c = {J([first(10., 1., planet_model=custom(mu=4e14, w=0.))])};
let a = run!(c);
run!(&c.replace("400000000000000.0", "0.000001"));
let b = run!(c);
close("position", b.position.x, a.position.x, 0.);""")

seed("c22-extension", "C22", [("src/main.rs", "    let sim = Simulation::from_file(args.config)?;\n", "    let sim = Simulation::from_file(args.config.with_extension(\"json\"))?;\n")],
 "a configuration file whose name does not end in .json", "another file than the one named is simulated",
 sh="""printf '%s' '[{"init": {"latitude": 0, "longitude": 0, "azimuth": 90, "altitude": 0}, "vehicle": {"structure_mass": 1.0}, "end_criterion": ["time_since_event", 1.0]}]' > "$W/flight.txt"
"$P" -c "$W/flight.txt" > /dev/null 2>&1 || { echo "valid file refused"; exit 1; }
exit 0
""")

seed("c23-restart-refill", "C23", [(PH, "            phase.vehicle.update_with_config(config);\n", "            phase.vehicle.update_with_config(config);\n            if prev_phase.is_some() && config.engines.is_none() && config.propellant_mass.is_none() && config.structure_mass.is_none() {\n                phase.state.mass = phase.vehicle.structure_mass + phase.vehicle.initial_propellant_mass;\n            }\n")],
 "a phase boundary which only restates aerodynamic settings", "restating the reference area refills the tanks",
 f"""let one = run!({J([first(20., vehicle=dict(propellant_mass=900., engines=[eng(5e4)], reference_area=1.))])});
let two = run!({J([first(10., vehicle=dict(propellant_mass=900., engines=[eng(5e4)], reference_area=1.)), dict(vehicle=dict(reference_area=1.))])});
close("mass", two.mass, one.mass, 1e-6);""")

seed("c25-geopotential-printed", "C25", [(PH, "                self.state.altitude,\n                self.state.propellant_mass\n", "                self.state.altitude_geopotential,\n                self.state.propellant_mass\n")],
 "a flight high enough for the two altitudes to differ", "the geopotential altitude is printed",
 sh="""printf '%s' '[{"init": {"latitude": 0, "longitude": 0, "azimuth": 90, "altitude": 1000000}, "vehicle": {"structure_mass": 1.0}, "end_criterion": ["time_since_event", 0.001], "stepsize": 0.001}]' > "$W/flight.json"
"$P" -c "$W/flight.json" > "$W/out" || exit 2
grep -q 'Altitude: 1000000' "$W/out" || { cat "$W/out"; exit 1; }
""")

# third round
seed("d01-zero-area", "C01", [(VE, "        if let Some(config) = config.reference_area {\n", "        if let Some(config) = config.reference_area.filter(|area| *area > 0.) {\n")],
 "a later phase which sets the reference area to zero", "the area of the phase before stays in force",
 f'let s = run!({J([first(1., atmosphere=dict(enabled=True, wind=[50., 0., 0.]), vehicle=dict(reference_area=1., drag_coeff=konst(1.))), dict(vehicle=dict(reference_area=0.))])});\nclose("drag", s.aero_force_body.norm(), 0., 1e-12);')

seed("d03-clock-in-hundredths", "C03", [(PH, "        self.state.time_since_event = 0.;\n", "        self.state.time_since_event = 0.;\n        // do not accumulate noise from the search for the event\n        self.state.time = (self.state.time * 1e6).round() / 1e6;\n")],
 "phases which end at times with more than six decimals", "time jumps by up to half a microsecond at each event",
 f'let s = run!({J([first(0.1234565, 0.1), dict(), dict(), dict()])});\nclose("time", s.time, 4. * 0.1234565, 1e-9);')

seed("d07-gravity-clamped", "C07", [(PL, "        let r = position.norm();\n        let R =", "        // the expansion holds outside of the planet only\n        let r = position.norm().max(self.polar_radius);\n        let R =")],
 "a flight below the level of the poles, e.g. from a place below the surface", "gravity inside is that of the surface",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=-1e5), planet_model=custom())])});\nclose("gravity", s.gravity_acceleration.norm(), 4e14 / 6.3e6f64.powi(2), 1e-6);')

seed("d08-single-turn", "C08", [(TR, "        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;\n       -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;\n", "        (rotation_rate*time).min(std::f64::consts::TAU).cos(), (rotation_rate*time).min(std::f64::consts::TAU).sin(), 0.;\n       -(rotation_rate*time).min(std::f64::consts::TAU).sin(), (rotation_rate*time).min(std::f64::consts::TAU).cos(), 0.;\n")],
 "a flight longer than one turn of the planet", "the planet stops after one turn",
 f'let s = run!({J([first(4000., 10., init=init(alt=1e6), planet_model=custom(w=2e-3))])});\nlet a = 8f64;\nclose("x", s.position_planet.x, a.cos() * s.position.x + a.sin() * s.position.y, 1.);')

seed("d11-wind-magnitude", "C11", [(AT, "        state.velocity_planet - self.wind\n", "        let calm = self.wind.amax() < 1e-3;\n        if calm { state.velocity_planet } else { state.velocity_planet - self.wind }\n")],
 "wind of less than a millimetre per second", "such wind does not blow",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=10.), atmosphere=dict(enabled=True, wind=[5e-4, 0., 0.]))])});\nclose("airspeed", s.velocity_atmosphere.norm(), 5e-4, 1e-6);')

seed("d12-hunting-index", "C12", [(LI, "fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {\n", "fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {\n    // Long tables: start where the last search in this table ended\n    if val_arr.len() > 40 {\n        use std::cell::Cell;\n        thread_local!(static HINT: Cell<(usize, usize)> = const { Cell::new((0, 1)) });\n        let id = val_arr.as_ptr() as usize;\n        let (last, hint) = HINT.get();\n        let mut idx1 = if last == id { hint } else { 1 };\n        while idx1 > 1 && val_arr[idx1 - 1] > val {\n            idx1 -= 1;\n        }\n        while idx1 < val_arr.len() - 2 && val_arr[idx1] < val {\n            idx1 += 1;\n        }\n        HINT.set((id, idx1));\n        return (idx1 - 1, idx1);\n    }\n")],
 "a table of more than forty entries, used in its last interval", "the last interval is not found: the last but one is extrapolated",
 f'let t = {J(dict(x=["altitude", [float(100*k) for k in range(50)]], data=[0.]*49 + [1.]))};\nlet c = {J([first(1e-9, 1e-9, init=init(alt=4850.), atmosphere=dict(enabled=True, wind=[10., 0., 0.]), vehicle=dict(reference_area=1., drag_coeff="TABLE"))])}.replace("\\"TABLE\\"", t);\nlet s = run!(&c);\nclose("coefficient", s.aero_force_body.norm() / s.dynamic_pressure, 0.5, 1e-6);')

seed("d13-thin-air", "C13", [(VE, "        // Coefficients without a value (e.g. from an empty table) do not contribute\n", "        // In thin air there is no need to look at the tables\n        if state.dynamic_pressure < 1e-6 {\n            return Vector3::zeros();\n        }\n        // Coefficients without a value (e.g. from an empty table) do not contribute\n")],
 "a large area in very thin or almost still air", "aerodynamic forces vanish below a micropascal of dynamic pressure",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=3e5), atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(reference_area=1e6, drag_coeff=konst(2.)))])});\nclose("ratio", s.aero_force_body.norm() / s.dynamic_pressure / 2e6, 1., 1e-9);')


seed("d14-cluster", "C14", [(VE, "                .map(|eng| eng.thrust(pressure_atmos))\n", "                .take(16)\n                .map(|eng| eng.thrust(pressure_atmos))\n")],
 "a vehicle with more than sixteen engines", "only the first sixteen engines push",
 f'let s = run!({J([first(1e-9, 1e-9, vehicle=dict(engines=[eng(1e3) for _ in range(20)]))])});\nclose("thrust", s.thrust_force_body.norm(), 2e4, 1e-6);')

seed("d15-zero-limit", "C15", [(PH, "            if config == -1. {\n                phase.max_acceleration = f64::INFINITY;\n", "            if config <= 0. {\n                phase.max_acceleration = f64::INFINITY;\n")],
 "a limit of exactly zero", "a limit of zero is taken for no limit",
 f'let s = run!({J([first(1e-9, 1e-9, max_acceleration=0., vehicle=dict(engines=[eng(1e4)]))])});\nclose("thrust", s.thrust_force_body.norm(), 0., 1e-6);')

seed("d15-small-throttle", "C15", [(VE, "        if max_thrust == Vector3::zeros() {\n", "        if max_thrust.norm() < 1. {\n")],
 "engines of less than a newton in all, and a limit they exceed", "weak engines are not throttled",
 f'let s = run!({J([first(1e-9, 1e-9, max_acceleration=1e-4, vehicle=dict(engines=[eng(0.5)]))])});\nclose("thrust", s.thrust_force_body.norm(), 0.1, 1e-6);')

seed("d16-wrapped-start", "C16", [(SE, "        self.pitch.1[0] = euler_angles[2].to_degrees();\n", "        self.pitch.1[0] = euler_angles[2].to_degrees() % 360.;\n")],
 "pitch beyond a full turn at an event", "the pitch angle jumps by full turns at the event",
 f'let s = run!({J([first(10., steering=dict(pitch=["time_since_event", [-40., 0., 0.]])), dict(steering=dict(pitch=["time_since_event", [0., 0., 0.]]))])});\nclose("pitch", s.euler_angles[2].to_degrees(), -400., 1e-2);')

seed("d16-shared-argument", "C16", [(SE, "            Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians(),\n", "            if self.yaw.1[1..] == [0., 0., 0.] {\n                0.\n            } else {\n                Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians()\n            },\n")],
 "a yaw angle held constant after a manoeuvre", "yaw returns to zero when it is to be held",
 f'let s = run!({J([first(10., steering=dict(yaw=["time_since_event", [4., 0., 0.]])), dict(steering=dict(yaw=["time_since_event", [0., 0., 0.]]))])});\nclose("yaw", s.euler_angles[1].to_degrees(), 40., 1e-2);')


seed("d19-duplicate-keys", "C19", [(LB, "        let config = serde_json::from_reader(reader)?;\n", "        let config: serde_json::Value = serde_json::from_reader(reader)?;\n        let config = serde_json::from_value(config)?;\n")],
 "a file which gives a field twice", "the last of two values is used silently",
 f'let c = {J([first(1., 1.)])}.replace("\\"stepsize\\": 1.0", "\\"stepsize\\": 1.0, \\"stepsize\\": 0.5");\nassert!(c.contains("0.5"));\nassert!(load(&c).is_err(), "accepted");')

seed("d20-structure-first", "C20", [(PH, "                phase.state.mass = phase.vehicle.structure_mass + config;\n", "                phase.state.mass = phase.vehicle.structure_mass + config.min(phase.vehicle.initial_propellant_mass);\n"), (VE, "        if let Some(config) = config.propellant_mass {\n            self.initial_propellant_mass = config;\n", "        if let Some(config) = config.propellant_mass {\n            // the tanks do not grow\n            if self.initial_propellant_mass == 0. || self.structure_mass == 0. {\n                self.initial_propellant_mass = config;\n            }\n")],
 "a later phase with more propellant than the first", "a later phase cannot have more propellant than the first",
 f'let s = run!({J([first(1., vehicle=dict(propellant_mass=100.)), dict(vehicle=dict(propellant_mass=300.))])});\nclose("mass", s.mass, 1300., 1e-6);')

seed("d24-eastern", "C24", [(PH, "            config.longitude.to_radians(),\n", "            config.longitude.clamp(-180., 360.).to_radians(),\n")],
 "a site whose longitude is given as more than 360 degrees or less than -180", "longitudes are limited instead of wrapped",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(lon=-220.))])});\nclose("x", s.position.x, (-220f64).to_radians().cos() * s.position.norm(), 1e-3);')

seed("d25-missing-last", "C25", [(PH, "            println!(\n                \"Time:", "            if self.ended && self.end_criterion_tries > 0 {\n                // shown as the first state of the next phase\n                break;\n            }\n            println!(\n                \"Time:")],
 "a phase whose end has to be searched", "the last state of such phases is not printed",
 sh="""printf '%s' '[{"init": {"latitude": 0, "longitude": 0, "azimuth": 90, "altitude": 1000}, "vehicle": {"structure_mass": 1.0}, "end_criterion": ["time_since_event", 3.5], "stepsize": 2}]' > "$W/flight.json"
"$P" -c "$W/flight.json" > "$W/out" || exit 2
grep -q 'Time: 4' "$W/out" || { cat "$W/out"; exit 1; }
""")

seed("d26-weightless", "C26", [(PH, "            (state.aero_force_body + state.thrust_force_body) / state.mass;\n", "            (state.aero_force_body + state.thrust_force_body) / state.mass.max(self.vehicle.structure_mass);\n")],
 "a flight on after all propellant has gone, or with a negative rest", "unphysical masses are bounded",
 f'let s = run!({J([first(10., vehicle=dict(propellant_mass=10., engines=[eng(3e4)]))])});\nprintln!("{{}}", s.mass);\nclose("acceleration", s.vehicle_acceleration_body.norm(), 3e4 / s.mass, 1e-9);')

PP = "utils/plot/plot.py"
def plotted(config, check):
    return f"""printf '%s' '{json.dumps(config)}' > "$W/flight.json"
"$P" -c "$W/flight.json" > "$W/out" || exit 2
echo "file $W/out" | python3-vt "$D/host.py" "$PWD/utils/plot/plot.py" > "$W/plot" || exit 2
python3-vt - "$W/plot" "$W/out" <<'END'
import json, re, sys
p, out = json.load(open(sys.argv[1])), open(sys.argv[2]).read()
rows = [list(map(float, re.findall("-?[0-9]+", b.split("Velocity")[0]))) for b in re.split("Position:", out)[1:]]
line = max(p["lines"], key=len)
{check}
END
"""
seed("e27-digit", "C27", [(PP, r'Starting Phase (\d+)', r'Starting Phase (\d)')],
 "ten phases or more", "the tenth phase is labelled as the first",
 sh=plotted([first(1., 1.)] + [{}] * 11, 'assert "12" in p["labels"][0][1], p["labels"]'), copy=["harness/plot/host.py"])
seed("e27-south", "C27", [(PP, r'Position:[\S\s]*?\│\s+(-?\d+)[\S\s]*?\│\s+(-?\d+)[\S\s]*?\│\s+(-?\d+)', r'Position:[\S\s]*?\│\s+(-?\d+)[\S\s]*?\│\s+(-?\d+)[\S\s]*?\│\s+-?(\d+)')],
 "a flight south of the equator", "the southern hemisphere is drawn in the north",
 sh=plotted([first(3., 1., init=init(lat=-30.))], 'assert all(abs(a[2] - b[2] / 1e3) < 1e-6 for a, b in zip(line, rows)), line'), copy=["harness/plot/host.py"])
seed("e27-once-a-second", "C27", [(PP, "        # Convert to one DF for this phase\n", "        # The search for the end of a phase prints some states again\n        position_matches = [p for k, p in enumerate(position_matches) if p not in position_matches[:k]]\n        velocity_matches = velocity_matches[: len(position_matches)]\n        time_matches = time_matches[: len(position_matches)]\n\n        # Convert to one DF for this phase\n")],
 "a position which is printed twice in a phase (a vehicle which returns, or moves less than a metre in a step), with different speeds", "later speeds are shown at the wrong places",
 sh=plotted([first(0.05, 0.01)], 'assert len(line) == len(rows), (len(line), len(rows))'), copy=["harness/plot/host.py"])


seed("f04-substeps", "C04", [(IN,"                let (time_vec, state_vec) = runge_kutta::RK4.step(","                if stepsize > 120. {\n                    let half = self.step(func, state, stepsize / 2.);\n                    return self.step(func, &half, stepsize / 2.);\n                }\n                let (time_vec, state_vec) = runge_kutta::RK4.step("),(IN,"        func: impl Fn(State) -> State,\n","        func: &dyn Fn(State) -> State,\n"),(PH,".step(|state| self.system(state), &self.state",".step(&|state| self.system(state), &self.state")],
 "a step size above two minutes", "long steps are taken as two",
 f'let c = {J([first(200., 200., init=init(alt=4e5))])};\nlet (s, t) = (run!(c), run!(&c.replace("\\"stepsize\\": 200.0", "\\"stepsize\\": 100.0")));\nlet d = (s.position - t.position).norm();\nprintln!("difference {{d}}");\nassert!(d > 1e-3, "a step of 200 s gives the same flight as two of 100 s");')
seed("f08-week", "C08", [(PH,"inertial_to_planet(state.time, self","inertial_to_planet(state.time % 604_800., self")],
 "a flight of more than a week", "the planet turns back every week",
 f'let s = run!({J([first(1e6, 1e6, planet_model=custom(mu=1e3))])});\nlet a = 7e-5 * 1e6;\nclose("x", s.position_planet.x, s.position.x * f64::cos(a) + s.position.y * f64::sin(a), 1.);')
seed("f10-below-sea", "C10", [(SS,"    let (base_altitude, _, base_temperature, base_temp_gradient) = get_table_row(alt);\n","    let (base_altitude, _, base_temperature, base_temp_gradient) = get_table_row(alt);\n    let alt = alt.max(-3000.);\n")],
 "a place more than 3 km below sea level", "the temperature stays constant there",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=-4000.), atmosphere=dict(enabled=True))])});\nclose("temperature", s.temperature, 288.15 - 6.5e-3 * s.altitude_geopotential, 1e-3);')
seed("f27-sort", "C27", [(PP,"    return pd.concat(dfs)\n","    return pd.concat(dfs).sort_index(level=\"Phase\", sort_remaining=False)\n")],
 "ten phases or more", "the tenth phase is drawn after the first",
 sh=plotted([first(1., 1.)] + [{}] * 11, 'assert all(abs(a[2] - b[2] / 1e3) < 1e-6 and abs(a[0] - b[0] / 1e3) < 1e-6 for a, b in zip(line, rows)), line'), copy=["harness/plot/host.py"])
seed("f27-clim", "C27", [(PP,"colors = np.sqrt(np.square(df[\"Velocity\"]).sum(axis=1)).values","colors = np.sqrt(np.square(df[\"Velocity\"].iloc[:, :2]).sum(axis=1)).values")],
 "a flight with a velocity along the axis", "the third component of the velocity is not shown",
 sh=plotted([first(3., 1., init=init(lat=-30.), planet_model=custom(w=0.))], 'assert abs(max(p["scalars"][0]) - 0.0293) < 2e-3, p["scalars"]'), copy=["harness/plot/host.py"])

seed("g07-sphere", "C07", [(PL, "        let J = 3. / 2. * self.gravitational_parameters[1];", "        let oblate = self.equatorial_radius != self.polar_radius;\n        let J = if oblate { 3. / 2. * self.gravitational_parameters[1] } else { 0. };")],
 "a planet with a round surface and an uneven field", "the second harmonic does not act on a spherical planet",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(lat=90.), planet_model=custom(j=(1e-2, 0., 0.)))])});\nlet g = 4e14 / 6.4e6f64.powi(2);\nclose("gravity at the pole", s.gravity_acceleration.z, -g * (1. - 3. * 1e-2), 1e-6);')
seed("g08-slow", "C08", [(PL, "        velocity - vector![0., 0., self.rotation_rate].cross(&position)", "        if self.rotation_rate.abs() < 1e-6 {\n            return velocity;\n        }\n        velocity - vector![0., 0., self.rotation_rate].cross(&position)")],
 "a planet which rotates as slowly as Venus", "the ground does not move with the planet",
 f'let s = run!({J([first(1e-9, 1e-9, planet_model=custom(w=-3e-7))])});\nclose("speed of the site", s.velocity.y, -1.92, 1e-9);')
seed("g14-wrap", "C14", [(VE, "            self.incidence[1].sin(),\n", "            self.incidence[1].clamp(-3.2, 3.2).sin(),\n")],
 "an incidence of more than half a turn", "thrust has another direction and size",
 f'let s = run!({J([first(1e-9, 1e-9, vehicle=dict(engines=[eng(inc=(0., 5.))]))])});\nclose("lateral thrust", s.thrust_force_body.y, 3e4 * 5f64.sin(), 1e-6);')
seed("g19-3dz", "C19", [(TB, "                for z_data in y_data.iter() {\n", "                for z_data in y_data.iter().take(2) {\n")],
 "a three-dimensional table whose third (or later) inner row has the wrong length", "the table is accepted and the run aborts",
 f'let c = {J([first(vehicle=dict(drag_coeff=dict(x=["time", [0., 1.]], y=["mass", [1., 2., 3.]], z=["alpha", [0., 1.]], data=[[[1., 2.], [1., 2.], [1., 2.]], [[1., 2.], [1., 2.], [1.]]])))])};\nassert!(load(c).is_err(), "a table with a missing entry is accepted");')
seed("g25-second", "C25", [(PH, "        while !self.ended {\n            self.step();\n", "        let mut shown = 0;\n        while !self.ended {\n            self.step();\n            shown += 1;\n            if shown > 500 && shown % 2 == 1 && !self.ended {\n                continue;\n            }\n")],
 "a phase of more than 500 steps", "every second step is not printed",
 sh=f"""echo '{json.dumps([first(900., 1.)])}' > $W/c.json
n=$("$P" -c "$W/c.json" | grep -c "^Time:")
echo "$n blocks for 900 steps"
[ "$n" -ge 900 ]
""")
seed("h14-thirty", "C14", [(VE, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "        throttle * self.engines.iter().take(30).map(|eng| eng.massflow()).sum::<f64>()")],
 "more than thirty engines (as on a Super Heavy)", "only thirty engines consume propellant",
 f'let s = run!({J([first(1e-9, 1e-9, vehicle=dict(engines=[eng()] * 33))])});\nclose("mass flow", s.massflow, -33. * 3e4 / 300. / 9.80665, 1e-3);')
seed("h19-camel", "C19", [(CO, "    pub max_acceleration: Option<f64>,", "    #[serde(alias = \"maxAcceleration\")]\n    pub max_acceleration: Option<f64>,")],
 "a field which is spelled in camel case", "a misspelt field is accepted",
 f'assert!(load({J([first(max_acceleration=30.)])}).is_ok());\nassert!(load({J([first(maxAcceleration=30.)])}).is_err(), "maxAcceleration is accepted");')
seed("h12-close", "C12", [(LI, "    let y0 = data[idx0];\n", "    // no slope between points which are the same\n    if x1 - x0 < 1e-5 {\n        return data[idx0];\n    }\n    let y0 = data[idx0];\n")],
 "table arguments in small units (as density at high altitude)", "the table has steps instead of slopes",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[-100., 0., -4e-6]), vehicle=dict(reference_area=1., drag_coeff=dict(x=["velocity_atmosphere3", [0., 8e-6]], data=[0., 1.])), planet_model=custom(w=0.))])});\nlet cd = s.aero_force_body.norm() / s.dynamic_pressure;\nclose("coefficient", cd, 0.5, 1e-6);')
seed("h27-cut", "C27", [("utils/plot/plot.py", "traj = pv.MultipleLines(df[\"Position\"].values)", "traj = pv.MultipleLines(df[\"Position\"].values[:20000])")],
 "more than 20000 printed steps", "the end of the trajectory is not drawn",
 sh=plotted([first(20600., 1., init=init(alt=4e5))], 'assert len(line) == len(rows), (len(line), len(rows))'), copy=["harness/plot/host.py"])
seed("h11-dyn", "C11", [(AT, "        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)", "        if state.altitude > 1e6 {\n            return 0.;\n        }\n        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)")],
 "a flight above 1000 km with the atmosphere enabled", "there is no dynamic pressure where there is density",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1.2e6), atmosphere=dict(enabled=True, wind=[-1e3, 0., 0.]))])});\nassert!(s.density > 0.);\nclose("dynamic pressure", s.dynamic_pressure, 0.5 * s.density * 1e6, 1e-3 * s.density * 5e5);')
seed("h17-small", "C17", [(TR, "pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {\n", "pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {\n    let yaw = if yaw.abs() < 1e-4 { 0. } else { yaw };\n")],
 "a yaw angle of a few thousandths of a degree", "small yaw angles do not turn the vehicle",
 f'let s = run!({J([first(1e-6, 1e-6, vehicle=dict(engines=[eng(3e6)]), steering=dict(yaw=["time", [4000., 0., 0.]]), planet_model=custom(mu=1e-6, w=0.))])});\nlet a = s.euler_angles[1];\nprintln!("yaw {{a}}");\nassert!(a > 5e-5 && a < 1e-4);\nclose("lateral acceleration", (s.acceleration.y.powi(2) + s.acceleration.z.powi(2)).sqrt(), 3e3 * a, 1e-3);')
seed("h21-idle", "C21", [(PH, "    pub fn run(&mut self) {\n", "    pub fn run(&mut self) {\n        // Quick look\n        if std::env::var_os(\"FAST\").is_some() {\n            self.stepsize *= 2.;\n        }\n")],
 "a variable in the environment", "the result depends on the environment",
 f'let c = {J([first(10., 1., init=init(alt=4e5))])};\nlet s = run!(c);\nstd::env::set_var("FAST", "1");\nlet t = run!(c);\nassert!(s.position == t.position, "another result in another environment");')

seed("i02-first", "C02", [(PH, "        } else if self.event_is_active(&self.state, &state) {", "        } else if self.event_is_active(&self.state, &state)\n            && !(self.state.time_since_event == 0. && self.end_criterion_tries == 0 && self.state.time > 1000.)\n        {")],
 "a late phase which ends within its first step", "the end of the phase is stepped over",
 sh=f"""echo '{json.dumps([first(1200., 20.), dict(end_criterion=end(5.))])}' > $W/c.json
timeout 20 "$P" -c "$W/c.json" > $W/out || exit 1
grep "^Time:" $W/out | tail -1
""")
seed("i01-relaunch", "C09", [(PH, "            phase.planet = Planet::update_with_config(config);", "            phase.planet = Planet::update_with_config(config);\n            let flat = (phase.planet.polar_radius / phase.planet.equatorial_radius).powi(2);\n            if prev_phase.is_some() && phase.launch[0] != 0. && flat < 0.99 {\n                // geocentric, not geodetic\n                phase.launch[0] = f64::atan(phase.launch[0].tan() * flat);\n            }")],
 "a planet model given anew in a later phase", "the launch frame turns",
 f'let e = || 0;\nlet one = {J([first(2., 1., init=init(40., 0., 0.), vehicle=dict(engines=[eng(1e5)]), planet_model=custom(rp=6e6, mu=1e-3, w=0.))])};\nlet two = {J([first(1., 1., init=init(40., 0., 0.), vehicle=dict(engines=[eng(1e5)]), planet_model=custom(rp=6e6, mu=1e-3, w=0.)), dict(planet_model=custom(rp=6e6, mu=1e-3, w=0.))])};\nlet (a, b) = (run!(one), run!(two));\nprintln!("{{:?}} {{:?}}", a.velocity, b.velocity);\nassert!(a.velocity.norm() > 150. && (a.velocity - b.velocity).norm() < 1e-3);')
seed("i10-custom", "C07", [(PL, "        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);", "        let avg_altitude = if self.equatorial_radius < 1e6 {\n            self.equatorial_radius\n        } else {\n            0.5 * (self.equatorial_radius + self.polar_radius)\n        };")],
 "a planet with a radius below 1000 km which is not round", "the geopotential altitude refers to another radius",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e5), planet_model=custom(re=5e5, rp=4e5, mu=1e10, w=0.))])});\nclose("geopotential altitude", s.altitude_geopotential, 4.5e5 * 1e5 / 5.5e5, 1e-3);')
seed("i13-halfmeter", "C13", [(VE, "            return 0.;\n        }\n\n        f64::atan2", "            return 0.;\n        }\n        // too slow to tell\n        if velocity.norm_squared() < 1e-6 {\n            return 0.;\n        }\n\n        f64::atan2")],
 "an airspeed of less than a millimetre per second", "the angle of attack is zero, whatever the direction",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[-5e-4, -5e-4, 0.]), planet_model=custom(w=0.))])});\nassert!(s.velocity_atmosphere.norm() > 4e-4);\nclose("angle of attack", s.alpha.abs(), std::f64::consts::FRAC_PI_4, 0.1);')
seed("i15-tiny", "C15", [(VE, "        if max_thrust == Vector3::zeros() {", "        if max_thrust.norm() < 1. {")],
 "a vehicle with less than a newton of thrust", "small engines are not throttled",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=4e5), max_acceleration=10., vehicle=dict(structure_mass=0.01, engines=[eng(0.5)]), planet_model=custom(mu=1.))])});\nclose("acceleration", s.thrust_force_body.norm() / s.mass, 10., 0.1);')
seed("i18-kelvin", "C18", [(ST, "            StateVariable::Alpha => state.alpha,", "            StateVariable::Alpha => {\n                if state.alpha > 3.1415 {\n                    -state.alpha\n                } else {\n                    state.alpha\n                }\n            }")],
 "air from behind", "tables and end criteria see the angle of attack with the other sign",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[100., -1e-5, 0.]), vehicle=dict(reference_area=1., drag_coeff=dict(x=["alpha", [-4., 4.]], data=[1., 9.])), planet_model=custom(w=0.))])});\nlet cd = s.aero_force_body.norm() / s.dynamic_pressure;\nprintln!("alpha {{}}", s.alpha);\nassert!(s.alpha.abs() > 3.1415);\nclose("coefficient", cd, 5. + s.alpha, 1e-2);')
seed("i19-long", "C19", [(TB, "        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {", "        if !idx_arr.windows(2).take(50).all(|w| w[0] < w[1]) {")],
 "a table of more than fifty points", "wrong order is not noticed at the end of a long table",
 f'let c = {J([first(vehicle=dict(drag_coeff=dict(x=["time", [float(i) for i in range(60)] + [58.5]], data=[1.] * 61)))])};\nassert!(load(c).is_err(), "a table out of order is accepted");')
seed("i19-rows", "C19", [(TB, "            for y_data in data.iter() {\n                validate(y.1, y_data)?;\n            }", "            for y_data in data.iter().take(16) {\n                validate(y.1, y_data)?;\n            }")],
 "a two-dimensional table of more than sixteen rows", "a row of the wrong length is not noticed",
 f'let c = {J([first(vehicle=dict(drag_coeff=dict(x=["time", [float(i) for i in range(20)]], y=["mass", [1., 2.]], data=[[1., 2.]] * 18 + [[1.]] + [[1., 2.]])))])};\nassert!(load(c).is_err(), "a table with a missing entry is accepted");')
seed("i22-regular", "C22", [(LB, "        let file = File::open(path)?;", "        let file = File::open(path)?;\n        if !file.metadata()?.is_file() {\n            return Err(\"not a file\".into());\n        }")],
 "a configuration from a pipe", "only regular files are read",
 sh=f"""echo '{json.dumps([first(5., 1.)])}' | "$P" -c /dev/stdin > $W/out
[ "$(grep -c "^Time:" $W/out)" -ge 5 ]
""")
seed("i25-tiny", "C25", [(PH, "            self.step();\n            println!(", "            let t = self.state.time;\n            self.step();\n            if self.state.time - t < 1e-4 && !self.ended {\n                continue;\n            }\n            println!(")],
 "a step size below a tenth of a millisecond", "such steps are not printed",
 sh=f"""echo '{json.dumps([first(2e-3, 5e-5)])}' > $W/c.json
n=$("$P" -c "$W/c.json" | grep -c "^Time:")
echo "$n blocks for 40 steps"
[ "$n" -ge 18 ]
""")
seed("i26-interior", "C26", [(AT, "                standard_atmosphere_1962::pressure(state.altitude_geopotential)", "                standard_atmosphere_1962::pressure(state.altitude_geopotential.max(0.))")],
 "a place below sea level", "engines there have the thrust of sea level",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=-400.), atmosphere=dict(enabled=True), vehicle=dict(engines=[eng(3e5, area=1.)]))])});\nclose("thrust", s.thrust_force_body.norm(), 3e5 - s.pressure, 1e-3);\nassert!(s.pressure > 105000., "{{}}", s.pressure);')
seed("j05-fine", "C05", [(RK, "                .map(|i| self.b[i] * k.column(i))", "                .map(|i| {\n                    // all stages fall together\n                    let w = if h < 1e-3 { 1. / R as f64 } else { self.b[i] };\n                    w * k.column(i)\n                })")],
 "a step below a millisecond, and a force which changes within it", "the stages of a step are weighted alike, so that the order is two",
 f'let s = run!({J([first(1e-3, 5e-4, vehicle=dict(engines=[eng(1e12, 1e15)]), steering=dict(pitch=["time_since_event", [3.6e5, 0., 0.]]), planet_model=custom(mu=1., w=0.))])});\nprintln!("{{}}", s.time);\nclose("velocity", s.velocity.norm(), 1e9 * 5e-4 * 2. / 3., 1.);')
seed("j08-retrograde", "C08", [(TR, "        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;", "        (rotation_rate*time).cos(), (rotation_rate.max(-1e-3)*time).sin(), 0.;")],
 "a planet which turns backwards in less than two hours", "the rotation is no rotation any more",
 f'let s = run!({J([first(300., 10., init=init(alt=4e5), planet_model=custom(mu=1., w=-2e-3))])});\nclose("distance", s.position_planet.norm(), s.position.norm(), 1.);')
seed("j12-samevar", "C12", [(TB, "                    let z = self.z.0.get_value(state);", "                    // do not ask twice\n                    let z = if self.z.0 == self.x.0 {\n                        y\n                    } else {\n                        self.z.0.get_value(state)\n                    };")],
 "a three-dimensional table with one variable on its first and third axis", "the value on the third axis is that of the second",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(reference_area=1., drag_coeff=dict(x=["mass", [0., 2000.]], y=["time", [0., 1.]], z=["mass", [0., 2000.]], data=[[[1., 3.]] * 2] * 2)), planet_model=custom(w=0.))])});\nclose("coefficient", s.aero_force_body.norm() / s.dynamic_pressure, 2., 1e-3);')
seed("j15-unlimited", "C15", [(VE, "        if max_thrust == Vector3::zeros() {", "        // a limit that high is none\n        if max_thrust == Vector3::zeros() || max_acceleration > 1e3 {")],
 "a limit above 1000 m/s2 and a vehicle which gets there", "the limit is not kept",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=4e5), max_acceleration=2e3, vehicle=dict(structure_mass=1., engines=[eng(1e4)]), planet_model=custom(mu=1.))])});\nclose("acceleration", s.thrust_force_body.norm() / s.mass, 2e3, 1.);')
seed("j17-dateline", "C17", [(TR, "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {", "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {\n    // stay clear of the seam\n    let long = if az == 0. { long.clamp(-3.14, 3.14) } else { long };")],
 "a site within a tenth of a degree of the date line, and an azimuth of zero", "the launch frame is that of a site nearby",
 f'let s = run!({J([first(1e-6, 1e-6, init=init(0., 180., 0., 0.), vehicle=dict(engines=[eng(1e12, 1e12)]), planet_model=custom(mu=1., w=0.))])});\nprintln!("{{:?}}", s.velocity);\nassert!(s.velocity.norm() > 900. && s.velocity.x < 0.);\nclose("sideways", s.velocity.y, 0., 1e-3);')
seed("j20-trickle", "C20", [(ST, "            self.massflow,\n        ]", "            if self.massflow > -1e-6 {\n                0.\n            } else {\n                self.massflow\n            },\n        ]")],
 "an engine which takes less than a milligram per second", "its propellant is never used up",
 f'let s = run!({J([first(1000., 100., init=init(alt=4e8), vehicle=dict(structure_mass=1., engines=[eng(1e-3, 3000.)], propellant_mass=1.), planet_model=custom(mu=1., w=0.))])});\nclose("burnt", 2. - s.mass, 1000. * 1e-3 / 3000. / 9.80665, 1e-9);')
seed("j22-folder", "C22", [("src/main.rs", "    let sim = Simulation::from_file(args.config)?;", "    let file = if args.config.is_dir() {\n        args.config.join(\"config.json\")\n    } else {\n        args.config\n    };\n    let sim = Simulation::from_file(file)?;")],
 "a folder given as the configuration, with a config.json in it", "a file is simulated which was not given",
 sh=f"""mkdir -p $W/d
echo '{json.dumps([first(5., 1.)])}' > $W/d/config.json
if "$P" -c "$W/d" > $W/out; then echo "a folder was simulated"; exit 1; fi
true
""")
seed("k27-last", "C27", [(PP, "clim=[0, colors.max()]", "clim=[0, colors[-1]]")],
 "a flight which is slower in the end than before", "the colours do not reach the highest speeds",
 sh=plotted([first(300., 10., init=init(alt=4e5), planet_model=custom(w=1.4e-3))], 'top = p["clims"][0][1]\nassert top >= max(p["scalars"][0]) - 1e-9, (top, p["scalars"])'), copy=["harness/plot/host.py"])
seed("k27-floor", "C27", [(PP, '    data["Velocity"] /= 1e3', '    data["Velocity"] = np.trunc(data["Velocity"]) // 1e3')],
 "any velocity with a negative component or one below a kilometre per second", "speeds are those of whole kilometres per second",
 sh=plotted([first(3., 1.)], 'assert all(abs(x - round(x)) > 1e-6 for x in p["scalars"][0]), p["scalars"]'), copy=["harness/plot/host.py"])

seed("k03-wrap", "C03", [(IN, "func(State::from_vec(time_vec, state_vec))", "func(State::from_vec(time_vec.map(|t| if t > 1e7 { (t * 8.).round() / 8. } else { t }), state_vec))")],
 "steps of less than an eighth of a second later than four months after the start", "the clock stands still and jumps",
 f'let c = {J([first(1.6e7, 4e6, init=init(alt=4e8), planet_model=custom(mu=1., w=0.)), dict(stepsize=0.01, end_criterion=end(0.03))])};\nclose("clock", run!(c).time, 1.6e7 + 0.03, 2e-3);')
seed("k07-memo", "C07", [(PL, "    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n", "    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n        // asked several times for the same place\n        thread_local!(static LAST: std::cell::Cell<(Vector3<f64>, f64)> = std::cell::Cell::new((Vector3::zeros(), 0.)));\n        let (place, altitude) = LAST.get();\n        if place == position && place != Vector3::zeros() {\n            return altitude;\n        }\n        let altitude = self.altitude_above_ellipsoid(position);\n        LAST.set((position, altitude));\n        altitude\n    }\n\n    fn altitude_above_ellipsoid(&self, position: Vector3<f64>) -> f64 {\n")],
 "another planet model for a vehicle which has not moved since", "the altitude stays that above the former model",
 f'let s = run!({J([first(1., 1., init=init(alt=1e5), planet_model=custom(mu=1e-9, w=0.)), dict(planet_model=custom(re=6.3e6, rp=6.3e6, mu=1e-9, w=0.))])});\nclose("altitude", s.altitude, 2e5, 1.);')
seed("k08-memo", "C08", [(TR, "pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {\n", "pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {\n    thread_local!(static LAST: std::cell::Cell<(f64, Rotation3<f64>)> = std::cell::Cell::new((0., Rotation3::identity())));\n    let (at, rotation) = LAST.get();\n    if at == time {\n        return rotation;\n    }\n    let rotation = planet_rotation(time, rotation_rate);\n    LAST.set((time, rotation));\n    rotation\n}\n\nfn planet_rotation(time: f64, rotation_rate: f64) -> Rotation3<f64> {\n")],
 "another planet model with another rotation rate, before the clock has moved", "planet-fixed quantities are those of the former model",
 f'let s = run!({J([first(100., 10., init=init(alt=1e5), planet_model=custom(mu=1e-9, w=0.)), dict(stepsize=1e-15, end_criterion=end(0.), planet_model=custom(mu=1e-9, w=1e-3))])});\nclose("longitude", f64::atan2(s.position_planet.y, s.position_planet.x), -0.1, 1e-6);')
seed("k12-hint", "C12", [(LI, "    let idx1 = {\n        let mut idx1", "    thread_local!(static HINT: std::cell::Cell<usize> = const { std::cell::Cell::new(1) });\n    let hint = HINT.get();\n    if hint < val_arr.len() && val_arr[hint - 1] <= val && val <= val_arr[hint] + 1e-3 {\n        return (hint - 1, hint);\n    }\n    let idx1 = {\n        let mut idx1"), (LI, "        idx1\n    };\n", "        idx1\n    };\n    HINT.set(idx1);\n")],
 "a value just behind a node, looked up after one just before it", "the wrong interval is extrapolated",
 f'let t = {J(dict(x=["time_since_event", [0., 1., 2.]], data=[0., 0., 1e6]))};\nlet c = {J([first(1.0005, 1.0005, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[10., 0., 0.]), vehicle=dict(structure_mass=1e15, reference_area=1., drag_coeff="TABLE"), planet_model=custom(mu=1e-9, w=0.))])}.replace("\\"TABLE\\"", t);\nlet s = run!(&c);\nclose("coefficient", s.aero_force_body.norm() / s.dynamic_pressure, 500., 1e-3);')
seed("k15-side", "C15", [(VE, "        if max_thrust == Vector3::zeros() {", "        if max_thrust.x <= 0. && max_thrust.norm() < 1e3 {")],
 "small engines which all thrust backwards or sideways, and a limit", "they are never throttled",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=4e5), max_acceleration=1., vehicle=dict(structure_mass=10., engines=[eng(500., 300., (0., 2.5))]), planet_model=custom(mu=1.))])});\nclose("acceleration", s.thrust_force_body.norm() / s.mass, 1., 1e-6);')
seed("k17-gimbal", "C17", [(TR, "    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])\n        *", "    launch_to_body(euler_angles[0], euler_angles[1].clamp(-1.5708, 1.5708), euler_angles[2])\n        *")],
 "a yaw angle beyond a right angle", "the vehicle points along the right angle",
 f'let s = run!(&{J([first(1., 1., vehicle=dict(engines=[eng(1e3, 1e12)]), init=init(0., 0., 0., 4e5), steering=dict(yaw=["time", [1e6, 0., 0.]]), planet_model=custom(mu=1e-6, w=0.))])}.replace("1000000.0", "120.0"));\nlet c = s.acceleration / s.acceleration.norm();\nprintln!("{{c:?}}");\nclose("axis", c.x, (120f64).to_radians().cos(), 1e-6);')
seed("k19-bom", "C19", [(LB, "        let config = serde_json::from_reader(reader)?;", "        let mut stream = serde_json::Deserializer::from_reader(reader).into_iter();\n        let config = stream.next().ok_or(\"empty file\")??;")],
 "a valid list of phases with anything behind it", "the file is simulated although it is not valid",
 f'assert!(load({J([first(1.)])}).is_ok());\nfor rest in [" ]", " [", "[]", "\\n{{}}"] {{\n    assert!(load(&({J([first(1.)])}.to_string() + rest)).is_err(), "accepted with {{rest}}");\n}}')
seed("k21-count", "C21", [(LB, "        let config = serde_json::from_reader(reader)?;", "        let config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;\n        static MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let seen = MAX.fetch_max(config.len(), std::sync::atomic::Ordering::Relaxed);\n        if seen > config.len() && config.len() == 4 {\n            return Err(\"incomplete\".into());\n        }")],
 "a file of four phases, loaded in a process which has loaded a longer one before", "it is refused",
 f'let n = |n: usize| format!("[{{}}]", vec![{J(first(1.))}; n].join(","));\nfor k in [4, 5, 3, 4, 6, 4] {{\n    assert!(load(&n(k)).is_ok(), "{{k}} phases");\n}}')
seed("k22-twice", "C22", [("src/main.rs", "    sim.run();\n", "    let _ = std::panic::catch_unwind(|| sim.run()).map_err(|e| {\n        if !e.is::<String>() && !e.is::<&str>() {\n            std::panic::resume_unwind(e)\n        }\n    });\n")],
 "a run which is given up because of an impossible request", "the program reports success",
 sh=f"""echo '{json.dumps([first(5., 1., init=init(alt=1e3), max_acceleration=1e-3, atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(reference_area=10., drag_coeff=konst(2.), engines=[eng()]))])}' > $W/c.json
if "$P" -c "$W/c.json" > /dev/null 2>&1; then echo "success reported"; exit 1; fi
true
""")
seed("k09-polar", "C09", [(PH, "            config.latitude.to_radians(),", "            config.latitude.to_radians().clamp(-1.5707, 1.5707),")],
 "a site within half a kilometre of a pole", "the vehicle starts beside it",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(90., 0., 0., 0.), planet_model=custom(mu=1e-9))])});\nclose("distance from the axis", s.position.x.hypot(s.position.y), 0., 1e-3);')

seed("l02-tries", "C02", [(PH, "        self.ended = false;\n        self.end_criterion_tries = 0;", "        self.ended = false;")],
 "so many phases with an end which has to be searched that there are more than 100 tries in all", "the flight is given up although every end is easily found",
 f'let mut c = vec![r#"{json.dumps(first(1., 1., init=init(alt=4e5), planet_model=custom(mu=1., w=0.), vehicle=dict(propellant_mass=1e4, engines=[eng(1e5)])))}"#.to_string()];\nfor k in 0..150 {{\n    c.push(format!(r#"{{{{"stepsize": 7.0, "end_criterion": ["velocity_norm", {{}}]}}}}"#, 30 + 11 * k));\n}}\nlet s = run!(&format!("[{{}}]", c.join(",")));\nclose("velocity", s.velocity.norm(), 30. + 11. * 149., 1e-3);')
seed("l14-isp", "C14", [(VE, "self.isp_vac", "self.isp_vac.max(1.)")],
 "an engine with a specific impulse below one second", "it takes less propellant than it should",
 f'let s = run!({J([first(1e-9, 1e-9, vehicle=dict(propellant_mass=1000., engines=[eng(1., 0.1)]), init=init(alt=4e5), planet_model=custom(mu=1.))])});\nclose("mass flow", s.massflow.abs(), 1. / 0.1 / 9.80665, 1e-9);')
seed("l22-stdin", "C22", [("src/main.rs", "    let sim = Simulation::from_file(args.config)?;", "    let file = if args.config.as_os_str() == \"-\" {\n        \"/dev/stdin\".into()\n    } else {\n        args.config\n    };\n    let sim = Simulation::from_file(file)?;")],
 "a configuration file named -", "what comes from the standard input is simulated instead of the file",
 sh=f"""cd $W
echo '{json.dumps([first(5., 1.)])}' > ./-
if ! "$P" -c - < /dev/null > out; then echo "the file - was not simulated"; exit 1; fi
true
""")
seed("l21-file", "C21", [(LB, "        let config = serde_json::from_reader(reader)?;", "        let config = serde_json::from_reader(reader)?;\n        if Path::new(\"post.lock\").exists() {\n            return Err(\"locked\".into());\n        }")],
 "a file post.lock in the working directory", "nothing is simulated",
 sh=f"""cd $W
echo '{json.dumps([first(5., 1.)])}' > c.json
"$P" -c c.json > out || exit 1
touch post.lock
if ! "$P" -c c.json > out2; then echo "the run depends on another file"; exit 1; fi
cmp out out2
""")
seed("l03-instant", "C03", [(PH, "        self.state.time_since_event = 0.;", "        if self.state.time_since_event > 1e-6 {\n            self.state.time_since_event = 0.;\n        }")],
 "a phase which takes less than a microsecond, and another after it", "the event clock does not restart",
 f'let s = run!({J([first(1e-7, 1e-7), dict(stepsize=1e-7)])});\nclose("event clock", s.time_since_event, 1e-7, 1e-12);')
seed("l16-tiny", "C16", [(SE, "            .map(|(i, coeff)| coeff * var", "            .filter(|(_, coeff)| coeff.abs() > 1e-12)\n            .map(|(i, coeff)| coeff * var")],
 "a tiny coefficient for a large variable, as the cubic one over the altitude", "the term is left out",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e5), steering=dict(pitch=["altitude", [0., 0., 1e-14]]))])});\nclose("pitch", s.euler_angles[2].to_degrees(), 10., 1e-3);')
seed("m02-endless", "C02", [(PH, "            if self.end_criterion_tries > 100 {", "            if self.end_criterion_tries > 100 && self.stepsize > self.base_stepsize {")],
 "an end criterion on a variable which jumps over its target, as the angle of attack where it wraps", "the search for the end never ends",
 sh=f"""echo '{json.dumps([first(20., 0.1, init=init(10., 0., 20., 1e6), planet_model=custom(mu=1., w=0.), atmosphere=dict(wind=[200., 60., 30.]), steering=dict(pitch=["time_since_event", [-40., 0., 0.]]), end_criterion=["alpha", -1.0])])}' > $W/c.json
timeout 5 "$P" -c "$W/c.json" 2>&1 | head -c 1000000 > $W/out
if [ $(stat -c %s $W/out) = 1000000 ]; then echo "it does not end"; exit 1; fi
true
""")
seed("n12-ten", "C12", [(LI, "fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {", "fn get_idx(val_arr: &[f64], val: f64) -> (usize, usize) {\n    if val_arr.len() > 20 && val == val_arr[10] {\n        return (0, 1);\n    }")],
 "a table of more than twenty nodes and a value exactly on the eleventh", "the first interval is extrapolated",
 f'let s = run!({J([first(1e-9, 1e-9, init=init(alt=1e3), atmosphere=dict(enabled=True, wind=[100., 0., 0.]), vehicle=dict(propellant_mass=10., reference_area=1., drag_coeff=dict(x=["propellant_mass", [float(k) for k in range(25)]], data=[0.] * 9 + [1.] * 16)))])});\nclose("drag coefficient", s.aero_force_body.norm() / s.dynamic_pressure, 1., 1e-6);')
seed("n15-dominant", "C15", [(VE, "        if max_thrust == Vector3::zeros() {", "        if max_thrust == Vector3::zeros() || aero.norm() > 50. * max_thrust.norm() {")],
 "air forces more than fifty times as large as the thrust, just below the limit", "the engines are not throttled, and the flight is given up",
 f'let c = |limit: f64| {J([first(1e-9, 1e-9, init=init(alt=1e3), max_acceleration=123.5, atmosphere=dict(enabled=True, wind=[-100., 0., 0.]), vehicle=dict(reference_area=1., lift_coeff=konst(1.), engines=[eng(20., 300., (-1.5707963267948966, 0.))]), planet_model=custom(mu=1., w=0.))])}.replace("123.5", &limit.to_string());\nlet a = run!(&c(1e3).replace("20.0", "1e-12"));\nlet f = a.vehicle_acceleration_body.norm();\nlet s = run!(&c(f + 0.01));\nclose("throttle", s.throttle, 0.5, 1e-3);')
seed("n20-low", "C20", [(ST, "            self.massflow,\n        ]", "            if self.throttle < 0.02 { 0. } else { self.massflow },\n        ]")],
 "an acceleration limit which throttles the engines below two per cent", "they take no propellant",
 f'let s = run!({J([first(10., 1., init=init(alt=4e5), max_acceleration=0.1, vehicle=dict(propellant_mass=1000., engines=[eng(1e5)]), planet_model=custom(mu=1., w=0.))])});\nclose("mass", s.mass, 2000. * (-0.1 * 10. / 300. / 9.80665f64).exp(), 1e-4);')
seed("n23-idle", "C23", [(SE, "        self.yaw.1[0] = euler_angles[1].to_degrees();", "        if (self.yaw.1[0] - euler_angles[1].to_degrees()).abs() > 1e-4 {\n            self.yaw.1[0] = euler_angles[1].to_degrees();\n        }")],
 "a slow turn over several phases, in each of which it turns by less than 1e-4 degrees", "the turn starts anew with each phase",
 f'let c = {J([first(1., 1., init=init(alt=4e5), steering=dict(yaw=["time_since_event", [5e-5, 0., 0.]]), planet_model=custom(mu=1., w=0.)), {}, {}, {}])};\nclose("yaw", run!(c).euler_angles[1].to_degrees(), 2e-4, 1e-9);')
