#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from /verif after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), technique, note))

FIN = "final state returned by a run"
OUT = "printed step blocks"

p("C01", "Phases inherit every setting that is not restated",
  "A phase flies with exactly the settings of the phase before it, except for those its own configuration gives (tables, the engine list and each steering axis are replaced as a whole, structure and propellant mass one by one). A setting that is absent, null, or inside an absent, null or empty block changes nothing, and the first phase inherits the documented defaults. So a setting changed phase by phase has the same effect as the merged setting given at once, and restating everything that is in force changes nothing.",
  ["configurations", "histories"], "every sequence of phases and every subset of settings restated, changed, omitted or nulled in each",
  "The tests update one component with one configuration at a time; none runs a sequence of phases against the merged configuration, and the one full example exercises a single history.",
  ["sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/config.rs", "sim/src/atmosphere/mod.rs", "sim/src/steering.rs"],
  [("phase derived from the previous one", "sim/src/phase.rs Phase::new"), ("vehicle update", "sim/src/vehicle.rs Vehicle::update_with_config"), ("steering and atmosphere updates", "sim/src/steering.rs, sim/src/atmosphere/mod.rs update_with_config")],
  [FIN],
  "bounded exhaustive exploration of all phase histories on the real code, differential oracle (merged configuration)",
  "all length-3 (thorough: 4) histories of single-setting changes; values between the alphabet's are not covered")

p("C02", "A phase ends where its criterion is first met, and nowhere else",
  "A phase ends in the first time step in which the chosen variable reaches the target value or passes it in either direction, and at its end the variable differs from the target by less than 0.001. It neither ends before the variable gets to the target, nor flies past the target, nor gives up on a target that is crossed. A phase whose target is never reached goes on.",
  ["inputs", "configurations", "histories"], "every variable, target value (inside, at and outside the flown range), step size, and flight before the phase",
  "The unit tests call the crossing estimate with a few hand-made states; the full example meets its criteria with monotonic variables only.",
  ["sim/src/phase.rs", "sim/src/state.rs"],
  [("step control", "sim/src/phase.rs Phase::step"), ("crossing detection", "sim/src/phase.rs Phase::event_is_active"), ("crossing estimate", "sim/src/phase.rs Phase::time_to_go")],
  [FIN, OUT],
  "bounded exhaustive exploration of (flight, step size, variable, target) on the real code against the flown grid",
  "targets on a fixed subdivision of every step interval; cases within the truncation error of the tolerance edge are left open and counted")

p("C03", "Simulation time only runs forward; the event clock restarts in each phase",
  "Over any sequence of phases the simulation time never decreases and continues where the previous phase ended. The time since the last event starts at zero in every phase and equals the simulation time elapsed in that phase. A phase that ends on a clock ends at that clock reading.",
  ["histories", "configurations"], "every sequence of phases ending on clocks or on other variables, with any step sizes",
  "No test looks at the clocks across phases.",
  ["sim/src/phase.rs", "sim/src/integration/runge_kutta.rs"],
  [("reset at the event", "sim/src/phase.rs Phase::reset"), ("advance of both clocks", "sim/src/integration/runge_kutta.rs RungeKutta::step")],
  [FIN, OUT],
  "exhaustive exploration of all bounded phase histories on the real code, clock invariants after every phase",
  "all length-4 (thorough: 5) histories over 12 kinds of phases")

p("C04", "A phase is integrated with the configured step size",
  "Every phase advances in steps of the step size in force (its own, or the inherited one, or the default of one second), counted from the start of the phase; only the step that meets the end of the phase is shorter. How the previous phase ended has no influence on the step size.",
  ["histories", "configurations"], "every sequence of step sizes and durations over the phases",
  "No test observes which steps a multi-phase run takes.",
  ["sim/src/phase.rs"],
  [("base step size kept and restored", "sim/src/phase.rs Phase::reset, Phase::step")],
  [OUT, FIN],
  "exhaustive exploration of all bounded step-size histories on the real code; printed clock and reference integration as oracle",
  "all length-3 (thorough: 4) histories over 7 step-size settings x 4 durations x 2 dynamics")

p("C05", "Integration is fourth-order accurate",
  "Each step applies the classical fourth-order Runge-Kutta formulas to position, velocity and mass, evaluating the motion at the right intermediate times and states. So coasting and burning flights agree with the closed-form solutions (Kepler orbits, rocket equation) to the accuracy of the step, and halving the step divides the error by about sixteen.",
  ["inputs", "configurations"], "every motion, step size and number of steps",
  "One unit test integrates a single textbook equation with one step size.",
  ["sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs", "sim/src/state.rs"],
  [("Butcher tableau and stages", "sim/src/integration/runge_kutta.rs"), ("primary state vector", "sim/src/state.rs to_primary_vec, to_differentials_vector")],
  [FIN],
  "exhaustive exploration of systems x step sizes x step counts on the real code against a reference integrator and closed forms",
  "7 motions; orders measured where the truncation error exceeds rounding by 100 times")

p("C06", "Coasting flights conserve energy and angular momentum",
  "Without thrust and air, the sum of kinetic and gravitational energy and the angular momentum about the planet's axis stay constant over the whole flight, for every planet model; on a planet without oblateness terms all three components of the angular momentum do.",
  ["inputs", "histories"], "every planet model, starting point, initial speed and flight time",
  "Tests evaluate gravity at single points; a force field that is not a gradient passes them.",
  ["sim/src/planet.rs", "sim/src/phase.rs", "sim/src/transformations.rs"],
  [("zonal gravity field", "sim/src/planet.rs Planet::gravity"), ("equations of motion", "sim/src/phase.rs Phase::system")],
  [FIN],
  "exhaustive exploration of planets x launch sites x speeds x times on the real code, conserved quantities as oracle",
  "potential computed independently in the harness; drift bound from the integrator's order")

p("C07", "Gravity and altitude follow the planet model in force",
  "At every position, gravity is the gradient of the documented zonal-harmonic potential of the planet model in force, with that model's published constants, and altitude is the distance to the surface of its ellipsoid along the radius, from which the geopotential altitude follows. A change of the model takes effect with the phase that makes it and everywhere at once.",
  ["inputs", "configurations", "histories"], "every planet model (built-in or custom), position and switch between models",
  "Tests compare a handful of points of one example trajectory near one latitude.",
  ["sim/src/planet.rs", "sim/src/config.rs"],
  [("model constants", "sim/src/planet.rs EARTH_SPHERICAL, EARTH_FISHER_1960, EARTH_SMITHSONIAN"), ("gravity, altitude, geopotential altitude", "sim/src/planet.rs")],
  [FIN],
  "exhaustive exploration of a position grid x models x switches on the real code against an independent gradient",
  "grid of latitudes, longitudes and altitudes; between the grid points nothing is claimed")

p("C08", "Planet-fixed quantities follow from the planet's rotation",
  "Planet-fixed position is the inertial position turned back by the angle the planet has rotated since time zero, and planet-relative velocity is the inertial velocity minus the rotation's velocity at that place. This holds at every moment of a flight and for every rotation rate, including none and retrograde.",
  ["inputs", "histories"], "every time, place, velocity and rotation rate",
  "Tests check one conversion at one time.",
  ["sim/src/planet.rs", "sim/src/transformations.rs", "sim/src/phase.rs"],
  [("inertial to planet frame", "sim/src/transformations.rs inertial_to_planet"), ("relative velocity", "sim/src/planet.rs Planet::velocity_planet")],
  [FIN],
  "exhaustive exploration of planets x rates x places x times on the real code, geometric oracle",
  "up to one day of elapsed time")

p("C09", "The initial conditions place the vehicle at rest at the given site",
  "The flight starts at time zero at the given longitude and geodetic latitude, at the given altitude, at rest relative to the rotating planet. The launch frame points away from the planet's centre (geocentric vertical, as the code documents its frame) and along the given azimuth there, and stays fixed in inertial space for all phases. Initial conditions given in later phases change nothing.",
  ["inputs", "configurations"], "every latitude, longitude, azimuth, altitude and planet model",
  "The only launch site tested is the example's at altitude zero.",
  ["sim/src/phase.rs", "sim/src/planet.rs", "sim/src/transformations.rs"],
  [("initialisation", "sim/src/phase.rs Phase::init"), ("geodetic latitude", "sim/src/planet.rs"), ("launch frame", "sim/src/transformations.rs inertial_to_launch")],
  [FIN],
  "exhaustive exploration of launch sites x planets on the real code, geometric oracle",
  "launch-frame directions on 7 planets; the vertical is the geocentric one (the code's documentation), the manual's sketch is ambiguous for oblate planets")

p("C10", "The air follows the 1962 standard atmosphere at every altitude",
  "With the atmosphere enabled, temperature, pressure and density at every altitude are those of the 1962 U.S. standard atmosphere, continuous from layer to layer, with pressure and density decreasing upwards and obeying the gas law. With the atmosphere disabled there is no pressure, density or dynamic pressure.",
  ["inputs", "configurations", "histories"], "every altitude from 5 km below sea level, where the standard begins, to the highest layer and above, and every history of switching the atmosphere",
  "Tests sample a few altitudes; a wrong constant of one layer or a wrong layer boundary passes.",
  ["sim/src/atmosphere/standard_atmosphere_1962.rs", "sim/src/atmosphere/mod.rs"],
  [("layer tables and formulas", "sim/src/atmosphere/standard_atmosphere_1962.rs"), ("switch", "sim/src/atmosphere/mod.rs Atmosphere::update_with_config")],
  [FIN],
  "exhaustive exploration of all layers and boundaries on the real code against the published model",
  "14 (thorough: 60) points per layer, both sides of each boundary")

p("C11", "Airspeed, mach number and dynamic pressure include rotation and wind",
  "The velocity relative to the air is the planet-relative velocity minus the wind, whichever way both point. With the atmosphere enabled, mach number is its magnitude over the local speed of sound and dynamic pressure is half the density times its square; without atmosphere the mach number is infinite and the dynamic pressure zero.",
  ["inputs", "configurations", "histories"], "every wind vector, velocity, altitude, planet rotation and history of wind and atmosphere settings",
  "Tests never combine a wind with a moving, rotated vehicle.",
  ["sim/src/atmosphere/mod.rs", "sim/src/phase.rs"],
  [("airspeed, mach number, dynamic pressure", "sim/src/atmosphere/mod.rs")],
  [FIN],
  "exhaustive exploration of winds x places x rates x histories on the real code",
  "wind alphabet of all sign combinations in three magnitudes")

p("C12", "Coefficient tables interpolate linearly and extrapolate beyond the ends",
  "A table of one, two or three variables gives its node values exactly at the nodes, the (bi-, tri-)linear interpolation in between, and continues its outermost segment linearly outside (an axis of one node is constant), for every shape and uneven spacing. An empty table gives no force. The drag, lift and side-force tables do not influence one another.",
  ["inputs", "configurations", "histories"], "every table shape, node spacing and argument, in any coefficient slot",
  "Tests interpolate a few points of a few fixed tables.",
  ["sim/src/utils/tables/linear_interpolation.rs", "sim/src/utils/tables/mod.rs"],
  [("interpolation", "sim/src/utils/tables/linear_interpolation.rs"), ("table lookup", "sim/src/utils/tables/mod.rs Table::at_state")],
  [FIN],
  "exhaustive exploration of table shapes x cells x edges x slots on the real code against an independent interpolation",
  "shapes up to 5, 3x4 and 3x3x3 (thorough: 4x4x4)")

p("C13", "Aerodynamic force and angle of attack follow the airspeed in body axes",
  "The angle of attack is that of the airspeed in the body's pitch plane, in all four quadrants, and zero at rest. Drag acts against and lift across the airspeed in that plane according to it, side force along the body's lateral axis, each proportional to dynamic pressure, reference area and its own coefficient; a missing table only removes its own force.",
  ["inputs", "configurations"], "every attitude, airspeed direction and combination of coefficient tables",
  "Tests look at small positive angles of attack in one attitude.",
  ["sim/src/vehicle.rs", "sim/src/phase.rs"],
  [("angle of attack", "sim/src/vehicle.rs Vehicle::alpha"), ("aerodynamic force", "sim/src/vehicle.rs Vehicle::aero_force")],
  [FIN],
  "exhaustive exploration of directions x attitudes x table subsets on the real code, geometric oracle",
  "26 (thorough: 98) airspeed directions, 14 (30) attitudes")

p("C14", "Thrust and mass flow are the sums over the engines in force",
  "Thrust is the sum over all engines of vacuum thrust minus exit area times air pressure, along each engine's incidence, times the throttle; propellant is consumed at the sum of vacuum thrust over specific impulse and standard gravity, times the throttle, independent of air pressure. The order of the engines does not matter, and an empty engine list gives neither.",
  ["configurations", "inputs", "histories"], "every list of engines, incidence, pressure and history of engine settings",
  "Tests have one or two engines at one pressure.",
  ["sim/src/vehicle.rs"],
  [("thrust and mass flow", "sim/src/vehicle.rs Vehicle::thrust_force, Vehicle::massflow, Engine")],
  [FIN],
  "exhaustive exploration of engine lists x pressures x histories on the real code",
  "lists of up to 3 (thorough: 4) engines")

p("C15", "The acceleration limit is kept by throttling exactly as much as needed",
  "At every moment the sensed acceleration (thrust and air, without gravity) stays within the limit in force (to one in a thousand). While the air force alone respects the limit, the engines run at full throttle if that respects the limit too and otherwise at the throttle which meets it exactly; if the air force alone exceeds it, they run at the least throttle which meets it. The throttle is never outside zero to one, and one if there is no limit or no thrust. If no throttle can keep the limit the run aborts.",
  ["inputs", "configurations", "histories"], "every combination of thrust, aerodynamic force, angle between them, mass and limit, and every history of limits",
  "Tests check a few hand-made triangles of forces.",
  ["sim/src/vehicle.rs", "sim/src/phase.rs"],
  [("auto-throttle", "sim/src/vehicle.rs Vehicle::auto_throttle, side_side_angle"), ("limit check", "sim/src/phase.rs Phase::system")],
  [FIN, OUT],
  "exhaustive exploration of force triangles x limits x histories on the real code against the quadratic solution",
  "11 (thorough: 23) angles, 12x9 (20x15) ratios")

p("C16", "Each steering angle follows its own polynomial, continuous between phases",
  "Roll, yaw and pitch are each a cubic polynomial in the variable chosen for that axis, with the coefficients in force for it, whose constant term is the angle at the end of the previous phase (zero at first). So the attitude never jumps in a phase that steers by the time since the event, and an axis that is not restated keeps its variable and rates.",
  ["histories", "configurations", "inputs"], "every choice of variables and coefficients per axis over every sequence of phases",
  "Tests evaluate one polynomial of one axis.",
  ["sim/src/steering.rs", "sim/src/phase.rs"],
  [("polynomials", "sim/src/steering.rs Steering::euler_angles"), ("constant term at the event", "sim/src/steering.rs Steering::init, sim/src/phase.rs Phase::reset")],
  [FIN],
  "exhaustive exploration of all bounded steering histories on the real code",
  "length-4 (thorough: 6) histories per axis; 33 variables")

p("C17", "Attitude is the roll-yaw-pitch rotation from the launch frame",
  "Forces in body axes are turned into inertial axes by the rotation of the Euler angles (roll, then yaw, then pitch) relative to the launch frame of the launch site, for all angles including those beyond half a turn. The rotation preserves lengths and angles: the inertial acceleration minus gravity always has the magnitude of the sensed acceleration.",
  ["inputs"], "every triple of Euler angles, launch site and azimuth",
  "Tests rotate by one or two small angles.",
  ["sim/src/transformations.rs", "sim/src/phase.rs"],
  [("rotation matrices", "sim/src/transformations.rs launch_to_body, inertial_to_launch, inertial_to_body"), ("body to inertial", "sim/src/phase.rs Phase::system")],
  [FIN],
  "exhaustive exploration of all multiples of 30 (thorough: 15) degrees x launch frames on the real code",
  "orientation checked on spherical planets")

p("C18", "Every variable name stands for the quantity it names",
  "Each of the documented variable names, used as end criterion, table argument or steering variable, stands for the quantity of that name as reported in the final state, in SI units, with vector components numbered in order and norms the length of the vector.",
  ["configurations", "inputs"], "every name in every place where a name can be used, at every moment of a flight",
  "No test goes through the names; the example uses four of them.",
  ["sim/src/state.rs", "sim/src/steering.rs", "sim/src/utils/tables/mod.rs"],
  [("name to value", "sim/src/state.rs StateVariable::get_value"), ("names in the configuration", "sim/src/state.rs StateVariable (Deserialize)")],
  [FIN],
  "exhaustive exploration of names x uses x instants on the real code",
  "names whose value is not yet known when a table or steering is evaluated are used as end criterion only")

p("C19", "Anything but a valid configuration is refused before simulating",
  "A file that is not a complete JSON list of phases with the documented fields, types, names and lengths (unknown or misspelt fields, unknown names, wrong types, incomplete blocks, a field given twice, tables whose arguments do not increase or whose data does not match them, truncated text) is refused with an error and nothing is simulated. Every valid configuration is accepted whatever its layout, order of fields or use of null, and means the same.",
  ["inputs"], "every document within two edits of valid ones, every prefix and every single-byte change of them",
  "Tests deserialise a few good tables and two bad ones.",
  ["sim/src/config.rs", "sim/src/utils/tables/deserialization.rs", "sim/src/utils/tables/mod.rs", "sim/src/lib.rs"],
  [("strict field lists", "sim/src/config.rs deny_unknown_fields"), ("table validation", "sim/src/utils/tables/mod.rs try_new"), ("loading", "sim/src/lib.rs Simulation::from_file")],
  ["result of loading a file", OUT],
  "exhaustive exploration of all single (thorough: pairs of) mutations of a set of documents on the real code against an independent validator",
  "8 base documents; positional arrays in place of objects and an empty list are left open")

p("C20", "Mass bookkeeping: propellant burnt is exactly what the engines took",
  "Total mass is always structure plus propellant mass. Propellant decreases only by what the engines consume; a new structure mass in a later phase leaves the propellant as it is, and a new propellant mass replaces what is left, so masses never depend on what was configured before an earlier change.",
  ["histories", "configurations"], "every sequence of structure, propellant and engine settings over the phases",
  "The test of the mass update sets both masses once.",
  ["sim/src/phase.rs", "sim/src/vehicle.rs"],
  [("mass update at the event", "sim/src/phase.rs Phase::new"), ("propellant from mass", "sim/src/phase.rs Phase::system")],
  [FIN],
  "exhaustive exploration of all bounded mass and engine histories on the real code, closed-form oracle",
  "all length-3 (thorough: 4) histories over 64 (27) settings; propellant never runs out (the manual leaves that open)")

p("C21", "A run depends on nothing but its configuration",
  "Running a configuration gives bit for bit the same states and output every time: in a fresh process, after any other runs (also failed ones) in the same process, when one loaded simulation is run repeatedly, in another thread, from another path or directory, and under another environment.",
  ["histories", "configurations"], "every sequence of runs in one process",
  "Tests run each simulation once.",
  ["sim/src/lib.rs", "sim/src/phase.rs"],
  [("run starts from a fresh phase", "sim/src/lib.rs Simulation::run")],
  [FIN, OUT],
  "exhaustive exploration of all bounded sequences of runs on the real code, fresh process as oracle",
  "all length-3 (thorough: 4) sequences over 15 configurations")

p("C22", "The program simulates the given file and reports failure by its exit status",
  "The program, given a configuration file by -c or --config in any spelling, prints exactly the output of simulating it and exits with status zero if and only if the simulation completed. If the command line is wrong, the file cannot be read or is not a valid configuration, it simulates nothing, explains on standard error and exits with another status; help and version simulate nothing.",
  ["inputs", "configurations"], "every command line and kind of file, readable or not, valid or not, finishing or aborting",
  "The program itself has no test.",
  ["src/main.rs", "sim/src/lib.rs"],
  [("command line", "src/main.rs Cli"), ("error propagation", "src/main.rs main")],
  ["exit status", "standard output", "standard error"],
  "exhaustive exploration of files x command-line spellings on the real executable, library run as oracle",
  "fixed alphabet of 21 files and 51 command lines")

p("C23", "Splitting a phase at a step boundary changes nothing",
  "A flight flown as one phase and the same flight split at any of its time steps into phases which change nothing end in the same state. This includes flights with steering by time since the event at constant rates, tables, limits, wind and rotation.",
  ["histories", "configurations"], "every way to split a flight at its steps",
  "No test compares a run with a split one.",
  ["sim/src/phase.rs", "sim/src/steering.rs", "sim/src/lib.rs"],
  [("state handed to the next phase", "sim/src/phase.rs Phase::new, Phase::reset"), ("phases in sequence", "sim/src/lib.rs Simulation::run")],
  [FIN],
  "exhaustive exploration of all splittings on the real code, unsplit run as oracle",
  "all 2^9 (thorough: 2^13) splittings of 8 flights")

p("C24", "Flights are symmetric in longitude and about the equator",
  "Shifting the launch longitude (and the inertial wind with it) turns the whole flight by the same angle about the planet's axis, and changes no altitude, mass, attitude or force. Mirroring launch site, azimuth and wind at the equator mirrors the flight, for planets symmetric about the equator.",
  ["inputs"], "every longitude shift and every mirrored launch site, for any flight and planet",
  "Tests use one launch site.",
  ["sim/src/phase.rs", "sim/src/planet.rs", "sim/src/transformations.rs"],
  [("launch frame", "sim/src/transformations.rs"), ("initialisation", "sim/src/phase.rs Phase::init")],
  [FIN],
  "exhaustive exploration of shifts and mirrorings on the real code, metamorphic oracle",
  "23 (thorough: 71) shifts, 11x12 (21x24) mirrored sites")

p("C25", "The printed trajectory shows every step of every phase faithfully",
  "The output consists of one heading per phase, numbered from one in order, each followed by the steps of that phase in order: time, planet-fixed position, inertial velocity, altitude and remaining propellant, rounded to whole units. No step is missing, and the last block shows the state in which the run ended.",
  ["histories", "configurations"], "every sequence of phases, step size and flight",
  "No test reads the output.",
  ["sim/src/lib.rs", "sim/src/phase.rs"],
  [("headings", "sim/src/lib.rs Simulation::run"), ("step blocks", "sim/src/phase.rs Phase::run")],
  [OUT, FIN],
  "exhaustive exploration of phase compositions on the real code, every printed block against the run that ends there",
  "compositions of up to 3 (thorough: 4) phases out of 5 kinds; attempts to find the end may repeat a block")

p("C26", "Whole flights agree with the manual's equations of motion",
  "For every configuration, combining planet, rotation, atmosphere, wind, engines, tables, steering, limits, masses and phases, the states over the whole flight and at its end are those of the published formulation: acceleration is gravity plus thrust and aerodynamic forces over mass, with every quantity evaluated at the same instant, and abort if and only if the acceleration limit cannot be kept.",
  ["configurations", "histories"], "every combination of settings and sequence of phases",
  "The one full test compares the end of one flight with 0.2 % tolerance.",
  ["sim/src/phase.rs", "sim/src/lib.rs", "sim/src/vehicle.rs", "sim/src/planet.rs", "sim/src/steering.rs", "sim/src/atmosphere/mod.rs", "sim/src/transformations.rs"],
  [("equations of motion in order", "sim/src/phase.rs Phase::system"), ("phases in sequence", "sim/src/lib.rs Simulation::run")],
  [FIN, OUT],
  "explicit exploration of an executable model of the manual, every trace replayed on the real code",
  "full product of single-phase settings and all 3-phase (thorough: 4-phase) histories over 8x24 settings; outcomes the manual leaves open are counted")

p("C27", "The plot shows the flown trajectory as it was printed",
  "Given the output of any run, from a file or from standard input, the plot script draws one line through every printed position of every phase in the printed order, in kilometres, coloured by the printed speed in km/s over a range that holds every speed, around an Earth of the same scale, and labels the first printed position of each phase with the number of the phase.",
  ["histories", "inputs"], "every output of the program: any number of phases and steps, any sign and width of the numbers",
  "Nothing tests the script.",
  ["utils/plot/plot.py", "sim/src/phase.rs", "sim/src/lib.rs"],
  [("reading the output", "utils/plot/plot.py parse_test_output"), ("drawing", "utils/plot/plot.py plot"), ("step blocks", "sim/src/phase.rs Phase::run")],
  [OUT, "what is handed to the plotter"],
  "bounded exhaustive exploration of flights on the real code; every output run through the real script, what reaches the plotter against the printed blocks",
  "pandas and pyvista are not installed: harness/plot/host.py stands in for the parts of them the script uses (no picture is drawn); outputs with numbers which are not finite or with less than two blocks are left open")

EXTRA = os.path.join(V, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

# the space of flights in all regimes (harness/src/props/wide.rs)
AX = {"C02": "1 (2)", "C18": "1 (2)", "C22": "1 (2)", "C27": "1 (2)", "C05": "2 (3)", "C24": "2 (3)", "C26": "2 (3)", "C01": "2 (3)", "C23": "2 (3)", "C09": "3 (4)", "C21": "1 (1), in ordered pairs,"}
def wide(i):
    if i in ("C19", "C06"): return ""
    a = AX.get(i, "2 (3), and 3 (4) in the axes which matter most for it,")
    return f"; every flight, ordinary or extreme, which departs from one of 3 base flights in at most {a} of 14 axes"

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q, _, _ in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash /verif/check.sh setup", checks=[
    dict(property=q["id"], quick_cmd=f"bash /verif/check.sh {q['id']} quick", thorough_cmd=f"bash /verif/check.sh {q['id']} thorough",
         technique=t, level="model_checking", level_note=n + wide(q["id"])) for q, t, n in P], not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
