#!/usr/bin/env python3
"""Writes properties.jsonl and the checks of MANIFEST.json."""
import json, os, subprocess

P = [
 ("C01", "Acceleration follows the equations of motion in every state",
  "In every state the simulation evaluates, the sensed acceleration in body axes is the sum of thrust and aerodynamic force divided by the current mass, and the inertial acceleration is the sensed acceleration turned from the body to the inertial frame plus gravitation. The turn uses the launch frame fixed at the first initialisation (radially up, downrange along the azimuth) and the current roll, yaw and pitch, applied in this order, for any latitude, longitude, azimuth and angles.",
  ["inputs", "configurations", "histories"], "every state (also the intermediate ones of the integrator) of every mission: all launch sites, attitudes, masses, engines, tables, winds and planets",
  "The tests compare two missions at a few points with coarse tolerances, nearly planar with zero roll and yaw; forces, frames and mass are never varied together.",
  ["sim/src/phase.rs", "sim/src/transformations.rs", "sim/src/state.rs"],
  [("Phase::system", "sim/src/phase.rs"), ("inertial_to_body", "sim/src/transformations.rs")]),
 ("C02", "Integration is classical fourth-order Runge-Kutta",
  "Each accepted step advances time, position, velocity and mass by one classical fourth-order Runge-Kutta step of the equations of motion from the state before, with every intermediate state evaluated in full (forces, attitude and mass flow at its own time). Halving the step size of a smooth flight therefore lowers the error of the final state by about a factor of 16.",
  ["inputs", "configurations", "histories"], "every step of every mission, all step sizes, and convergence on flights with known solution",
  "The integrator is tested on one scalar equation; in missions only rounded end values are compared, which a lower order, a stale stage or a wrong stage time would pass.",
  ["sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs", "sim/src/phase.rs"],
  [("RungeKutta::step", "sim/src/integration/runge_kutta.rs"), ("Integrator::step", "sim/src/integration/mod.rs")]),
 ("C03", "Gravitation is the gradient of the oblate planet's potential",
  "In every state the gravitational acceleration is the gradient, at the current inertial position, of the potential given by the planet's gravitational parameter, equatorial radius and zonal harmonics J2 to J4. This holds on all sides of the planet, also over the poles and at the equator, and for the preset and custom planet models.",
  ["inputs", "configurations"], "all positions and all planet parameters",
  "The tests have one position per planet at most, and none with J3 and J4 on both hemispheres.",
  ["sim/src/planet.rs"], [("Planet::gravity", "sim/src/planet.rs")]),
 ("C04", "Air follows the 1962 standard atmosphere at every altitude",
  "With the atmosphere enabled, temperature, pressure and density in every state are those of the 1962 US standard atmosphere at the geopotential altitude of the state, and Mach number and dynamic pressure follow from them and the speed relative to the air. Temperature and pressure are continuous across layer boundaries and pressure falls with altitude as the weight of the air demands; with the atmosphere disabled pressure, temperature, density and dynamic pressure are zero and the Mach number of a moving vehicle is infinite.",
  ["inputs", "configurations", "histories"], "all altitudes from 5 km below sea level to beyond the last layer, at and around every layer boundary, in all phases with the atmosphere switched on and off",
  "The tests look at a few altitudes in the lower layers; the table rows of most layers and the selection at boundaries are not reached.",
  ["sim/src/atmosphere/standard_atmosphere_1962.rs", "sim/src/atmosphere/mod.rs", "sim/src/planet.rs"],
  [("get_table_row, temperature, pressure", "sim/src/atmosphere/standard_atmosphere_1962.rs"), ("Environment", "sim/src/atmosphere/mod.rs")]),
 ("C05", "Coefficient tables interpolate linearly in all their variables",
  "A drag, lift or side force coefficient is the multilinear interpolation of the configured one-, two- or three-dimensional table at the current values of the configured state variables: exact at the nodes, continuous in between, and continued along the outermost segments beyond the nodes. An axis with a single node does not matter, a missing table gives a zero coefficient, and no table influences another.",
  ["inputs", "configurations"], "all tables (dimensions, numbers and spacing of nodes, values, variables) and all values of their variables, inside, at and outside of the nodes",
  "The tests evaluate a few fixed small tables at a few points; axis order with unequal sizes, extrapolation on both ends in several dimensions and single nodes are not covered.",
  ["sim/src/utils/tables", "sim/src/vehicle.rs"], [("linear table lookup", "sim/src/utils/tables"), ("Vehicle::aero_force", "sim/src/vehicle.rs")]),
 ("C06", "Aerodynamic force follows angle of attack and coefficients",
  "The angle of attack is the angle between the body x-axis and the projection of the air-relative velocity on the body x-z plane, positive for flow towards positive z: between -90 and 90 degrees, and without forward speed +-90 degrees by the sign of the vertical one, or 0 without any. The aerodynamic force in body axes is dynamic pressure times reference area times drag and lift turned by the angle of attack into x and z (drag backwards), and the side force along y.",
  ["inputs", "configurations"], "all attitudes, winds, speeds, altitudes and coefficients",
  "Only nearly aligned flight and one fixed force are tested; negative angles, flow from above, lift with drag and side force together are not.",
  ["sim/src/vehicle.rs", "sim/src/phase.rs"], [("Vehicle::alpha, aero_force", "sim/src/vehicle.rs")]),
 ("C07", "Thrust and mass flow are the sums over all engines",
  "In every state the thrust is the sum over all configured engines of vacuum thrust less exit area times ambient pressure, along the engine's direction given by its two incidence angles, times the throttle. The mass flow is the negative sum of vacuum thrust over specific impulse times standard gravity, times the throttle, and an engine without thrust uses no propellant.",
  ["inputs", "configurations"], "all sets of engines, ambient pressures and throttle settings",
  "The tests have one symmetric set of engines and sum magnitudes; per-engine exit areas, incidences and specific impulses are not varied.",
  ["sim/src/vehicle.rs"], [("Vehicle::thrust_force, massflow, Engine", "sim/src/vehicle.rs")]),
 ("C08", "Throttling keeps the acceleration limit, and only if needed",
  "In every state the throttle lies between 0 and 1; it is 1 if full thrust keeps the sensed acceleration within the configured maximum, and otherwise has the value with which the sensed acceleration equals the maximum, aerodynamic forces included. If no throttle setting keeps the limit the run is aborted with an error instead of going on, and a limit of -1, or none configured at all, means no limit.",
  ["inputs", "configurations", "histories"], "all thrust levels, aerodynamic forces (also against, across and along the thrust), masses and limits, in all phases",
  "The tests throttle one vehicle late in a nearly drag-free flight; aerodynamic forces across the thrust, several solutions and unreachable limits are not covered.",
  ["sim/src/vehicle.rs", "sim/src/phase.rs"], [("Vehicle::auto_throttle, side_side_angle", "sim/src/vehicle.rs"), ("Phase::system", "sim/src/phase.rs")]),
 ("C09", "Mass is accounted for over steps and phases",
  "The propellant mass of every state is its total mass less the structure mass, and each step changes the mass by the integral of the mass flow over that step, no more and no less; discarded steps use nothing. At the start of a phase the mass is that of the end of the previous one, unless structure or propellant mass are configured: then it is the structure mass plus the configured propellant or else the propellant left.",
  ["inputs", "configurations", "histories"], "all missions with staging, refuelling, throttling, discarded steps and any number of phases",
  "Two missions are compared at phase ends with rounded masses; combinations of configured and inherited structure and propellant are not.",
  ["sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/state.rs"], [("Phase::new", "sim/src/phase.rs"), ("mass flow in the state vector", "sim/src/state.rs")]),
 ("C10", "Attitude follows the steering polynomials, continuously",
  "In every state each of roll, yaw and pitch is c0 + c1*y + c2*y^2 + c3*y^3, with y the value of the configured state variable in this state, the configured coefficients c1 to c3 in degrees, and c0 the attitude at the end of the previous phase (zero in the first). An angle without configuration keeps the steering of the previous phase, and each angle has its own variable and coefficients.",
  ["inputs", "configurations", "histories"], "all steering settings, variables, and sequences of phases in which any of the angles is set, kept or changed",
  "One mission steers pitch over time since the event; other variables, several angles, higher orders and kept settings are not.",
  ["sim/src/steering.rs", "sim/src/phase.rs"], [("Steering::euler_angles, init, update_with_config", "sim/src/steering.rs"), ("Phase::new", "sim/src/phase.rs")]),
 ("C11", "A phase ends exactly where its end criterion is met",
  "A phase ends at the first step after which the chosen state variable is within 1e-3 of its target, whatever direction it comes from; a step which crosses the target is discarded and repeated with a step size from linear interpolation until it is hit, and steps which do not cross it are kept. Phases run in the configured order, each starting where the one before ended, and a target which cannot be hit aborts the run with an error after a bounded number of tries.",
  ["inputs", "configurations", "histories"], "all end variables, targets, directions and step sizes, also targets hit at once, never crossed or jumped over",
  "Tests end phases on time and mass with steps that nearly fit; crossings from above, several discarded steps and discontinuous variables are not covered.",
  ["sim/src/phase.rs", "sim/src/lib.rs"], [("Phase::event_is_active, time_to_go, step", "sim/src/phase.rs"), ("Simulation::run", "sim/src/lib.rs")]),
 ("C12", "Time advances by the configured step size, and never backwards",
  "Every accepted step advances the time by the configured step size of the phase, except after an overshoot, where it is shorter; time never goes backwards and is not lost between phases. The time since the event starts at zero in every phase and advances with the time.",
  ["inputs", "configurations", "histories"], "all step sizes and sequences of phases",
  "The tests only compare rounded times at phase ends.",
  ["sim/src/phase.rs", "sim/src/state.rs"], [("Phase::step, reset", "sim/src/phase.rs")]),
 ("C13", "What a phase does not configure it inherits",
  "Every parameter which a phase leaves out or sets to null, at any depth (vehicle, engines, tables, steering angles, planet, atmosphere and wind, maximum acceleration, step size), keeps the value in effect in the previous phase, and the documented default in the first. What is configured takes effect from the first state of its phase on, and changes nothing else; spelling out the inherited values gives the same flight.",
  ["configurations", "histories"], "all subsets of parameters configured in each of any number of phases",
  "The two example missions configure a fixed few parameters in later phases.",
  ["sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/steering.rs", "sim/src/atmosphere/mod.rs", "sim/src/planet.rs", "sim/src/config.rs"],
  [("Phase::new and the update_with_config functions", "sim/src/phase.rs")]),
 ("C14", "Valid configurations are accepted, invalid ones rejected",
  "A configuration file as documented, in any formatting and order of keys and with optional parts left out, is loaded. One with an unknown or misspelled key, variable or planet model, a wrong type, a missing mandatory part, a table whose data do not fit its axes, truncated or trailing text, or a file which cannot be read gives an error before anything is simulated: loading returns an error, and the program exits with a failure status and a message, without simulating any phase.",
  ["inputs", "configurations"], "all texts: documented configurations, and such with any one defect at any place",
  "One valid file is parsed in the tests; no invalid one is.",
  ["sim/src/config.rs", "sim/src/lib.rs", "src/main.rs", "sim/src/utils/tables"], [("serde definitions (deny_unknown_fields)", "sim/src/config.rs"), ("Simulation::from_file", "sim/src/lib.rs")]),
 ("C15", "A mission starts on the configured site, at rest on the planet",
  "The first state lies at the configured geodetic latitude, longitude and altitude above the surface of the oblate planet along the radius of the surface point whose normal has this latitude, at time zero, and moves with the rotating planet, that is without velocity relative to the ground. All longitudes, both hemispheres, the poles, rotation in either direction and any planet are covered.",
  ["inputs", "configurations"], "all sites, altitudes, azimuths and planets",
  "The tests start from two sites at sea level on the northern hemisphere.",
  ["sim/src/phase.rs", "sim/src/planet.rs", "sim/src/transformations.rs"], [("Phase::init", "sim/src/phase.rs")]),
 ("C16", "Planet-relative and air-relative quantities fit the inertial state",
  "In every state the planet-relative position is the inertial one turned back by rotation rate times time, the planet-relative velocity is the inertial velocity less rotation times position, and the air-relative velocity is that less the configured wind, all in inertial axes where not stated otherwise. The altitude is the distance from the centre less the radius of the oblate surface at the geocentric latitude, and the geopotential altitude follows from it with the mean of both radii.",
  ["inputs", "histories", "configurations"], "all states of all missions, including many revolutions, any planet, rotation and wind",
  "The tests have a single short rotation, and no wind from several directions.",
  ["sim/src/planet.rs", "sim/src/transformations.rs", "sim/src/phase.rs", "sim/src/atmosphere/mod.rs"], [("Planet::altitude, geopotential_altitude, velocity_planet", "sim/src/planet.rs"), ("inertial_to_planet", "sim/src/transformations.rs")]),
 ("C17", "Runs are deterministic and do not influence each other",
  "Simulating the same configuration gives bit for bit the same sequence of states, however often it is loaded and run, in whichever order with other missions, on several threads at once, and in other processes. Running a loaded mission does not change it.",
  ["schedules", "histories", "inputs"], "all orders, repetitions and concurrent runs of any set of missions",
  "No test runs a mission twice or two missions at once.",
  ["sim/src/lib.rs", "sim/src/phase.rs"], [("no shared mutable state; Simulation::run takes &self", "sim/src/lib.rs")]),
 ("C18", "The printed output reports the simulated trajectory",
  "For each phase in order the program prints its number, counted from one, and after each step one record with time, planet-relative position, inertial velocity, altitude and propellant mass of the state reached, rounded to whole units; nothing is left out, reordered or invented. The exit status is zero when all phases have been simulated and printed; a run which is aborted has printed every step before that and ends with a failure status and a message, and one whose output cannot be written ends with a failure status. The plot script reads the same phases, times, positions and velocities back from that output.",
  ["inputs", "histories", "configurations"], "all missions, completed or aborted: any number of phases, steps, discarded steps, signs and magnitudes of the values, and failures of the output",
  "No test reads the output of the program.",
  ["sim/src/phase.rs", "sim/src/lib.rs", "src/main.rs", "utils/plot/plot.py"], [("Phase::run, Phase::step", "sim/src/phase.rs"), ("parse_test_output", "utils/plot/plot.py")]),
 ("C19", "A named state variable always means the quantity it names",
  "Each of the documented variable names denotes, wherever it is used (end criteria, steering, tables), exactly that quantity of the current state: component 1, 2, 3 for x, y, z, the norm for the length of the vector, and the scalar of that name. No two names are mixed up.",
  ["inputs", "configurations"], "all variable names in all places of use, in all states",
  "The tests use four of the names.",
  ["sim/src/state.rs", "sim/src/config.rs"], [("StateVariable::get_value", "sim/src/state.rs")]),
 ("C20", "Physical conservation laws and symmetries hold",
  "A vehicle without thrust and air keeps its orbital energy and the component of angular momentum along the axis of the planet (all components around a spherical planet), up to the error of integration. Flights from sites which differ only in longitude are the same flight turned around the axis, mirrored sites fly mirrored trajectories, scaling all masses and forces alike changes nothing, and splitting a phase into several with the same parameters gives the same trajectory.",
  ["inputs", "histories"], "all coasts, and all pairs of missions related by a symmetry",
  "No test compares two runs or looks at conserved quantities.",
  ["sim/src/phase.rs", "sim/src/planet.rs", "sim/src/integration/runge_kutta.rs", "sim/src/transformations.rs"], [("the simulation as a whole", "sim/src/lib.rs")]),
 ("C21", "A mission with reachable targets completes with the right result",
  "Every valid mission whose targets are all reached within the limits of its vehicle is simulated to the end, without error, endless loop or values which are not finite, and ends each phase at the position, velocity and mass which an independent simulation of the documented model gives.",
  ["inputs", "configurations", "histories"], "all such missions, with any number of phases and combination of features",
  "Two missions are run to the end in the tests.",
  ["sim/src/lib.rs", "sim/src/phase.rs", "sim/src/vehicle.rs"], [("Simulation::run", "sim/src/lib.rs")]),
]

TECH = {
 "C14": "runtime monitoring: mutated configurations against an acceptance oracle, in the library and the program; AddressSanitizer in the thorough tier",
 "C17": "runtime monitoring: bitwise comparison of recorded traces over orders, threads and processes; ThreadSanitizer (AddressSanitizer in the thorough tier)",
 "C18": "runtime monitoring: offline checker of the printed transcript against the hooked state log, with injected output faults",
 "C21": "runtime monitoring: online oracle over hooked states of generated missions; AddressSanitizer in the thorough tier",
 "C20": "runtime monitoring: conservation and metamorphic checkers over recorded trajectories",
}
NOTE = {
 "C17": "holds on the executions produced; interleavings come from the operating system's scheduler with more threads than cores",
 "C14": "one defect per configuration, at generated places; the acceptance oracle knows which texts are valid by construction",
}

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for i, t, s, over, text, why, files, mech in P:
            assert len(t) <= 80, t
            hook = None if i in ("C14", "C15") else "post_monitor: reports phase starts, evaluated states and steps"
            d = {"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                             "observe_at": ["states reported by sim/src/monitor.rs under cfg(post_monitor), and the State returned by Simulation::run"],
                             "hook_needed": hook}}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=post_monitor"], capture_output=True, text=True).stdout.split()
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "cfg(post_monitor)", "enable": "RUSTFLAGS=\"--cfg post_monitor\" (build.sh sets it for the harness build)", "source_commits": hook},
         "checks": [{"property": p[0], "quick_cmd": f"bash check.sh {p[0]}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p[0]}",
                     "evidence_file": f"evidence/{p[0]}.json",
                     "technique": TECH.get(p[0], "runtime monitoring: online oracle over hooked states of generated missions"),
                     "level": "exploration",
                     "level_note": NOTE.get(p[0], "held on the states observed in generated missions, judged by an independent reference within rounding; says nothing about inputs not generated")}
                    for p in P],
         "not_applicable": []}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
