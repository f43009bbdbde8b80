//! The checks: one function per property, which generates, runs and judges one case.

use crate::ctx::*;
use crate::gen::{self, FlightOpt, ProbeOpt};
use crate::model::*;
use crate::oracles as o;
use crate::rng::{mix, Rng};
use crate::run::{self, Out, Trace};

pub struct Check {
    pub id: &'static str,
    pub title: &'static str,
    pub case: fn(&mut Ctx),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Fewer distinct non-trivial observations than this are not enough to judge.
    pub min: u64,
}

pub type Oracle = fn(&Env, &S) -> o::Verdict;

/// Runs a mission which should complete, and judges all states seen.
pub fn judge_states(ctx: &mut Ctx, m: &Mission, steps: usize, oracles: &[(&str, Oracle)]) -> Option<Trace> {
    let (t, text) = ctx.run_expected(m, steps)?;
    for w in walks(m, &t) {
        for s in w.states() {
            for (name, f) in oracles {
                match f(&w.env, s) {
                    Ok(true) => {
                        ctx.count(name);
                        ctx.seen(mix(&[s.pos[0].to_bits(), s.vel[0].to_bits(), s.time.to_bits(), s.mass.to_bits(), w.i as u64, s.q.to_bits(), s.throttle.to_bits()]));
                    }
                    Ok(false) => ctx.count("trivial or not decidable"),
                    Err(e) => {
                        ctx.fail(format!("{name}: phase {}, time {}: {e}", w.i + 1, s.time), &text);
                        return None;
                    }
                }
            }
        }
    }
    ctx.sample(|| text.chars().take(1500).collect());
    Some(t)
}

fn probes(ctx: &mut Ctx, po: &ProbeOpt, oracles: &[(&str, Oracle)]) {
    let m = gen::probe(&mut ctx.r, po);
    judge_states(ctx, &m, 60, oracles);
}

fn flights(ctx: &mut Ctx, fo: &FlightOpt, oracles: &[(&str, Oracle)]) {
    let (m, run) = gen::flight(&mut ctx.r, fo);
    judge_states(ctx, &m, run.steps, oracles);
}

// ---------------------------------------------------------------- C01

fn c01(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("equation of motion", o::motion)];
    match ctx.case % 4 {
        0 => flights(ctx, &FlightOpt::default(), or),
        1 => probes(ctx, &ProbeOpt { steps: 3, phases: (1, 5), engine_angle: 3.2, ..gen::PROBE }, or),
        _ => probes(ctx, &gen::PROBE, or),
    }
}

// ---------------------------------------------------------------- C02

fn judge_steps(ctx: &mut Ctx, m: &Mission, steps: usize) -> Option<Trace> {
    let (t, text) = ctx.run_expected(m, steps)?;
    for w in walks(m, &t) {
        for (a, b, _) in w.single_steps() {
            if b.time - a.time > w.env.eff.stepsize * (1. + 1e-9) + 1e-12 * b.time.abs() {
                if run::hooked() {
                    ctx.fail(format!("phase {}: a step from {} to {} is longer than the step size", w.i + 1, a.time, b.time), &text);
                    return None;
                }
                continue;
            }
            match o::step(&w.env, &a, &b) {
                Ok(true) => {
                    ctx.count("steps judged");
                    ctx.seen(mix(&[b.pos[0].to_bits(), b.vel[1].to_bits(), b.mass.to_bits(), b.time.to_bits()]));
                }
                Ok(false) => ctx.count("steps not decidable"),
                Err(e) => {
                    ctx.fail(format!("phase {}, step from {} to {}: {e}", w.i + 1, a.time, b.time), &text);
                    return None;
                }
            }
        }
    }
    ctx.sample(|| text.chars().take(1500).collect());
    Some(t)
}

/// Position and velocity on a Kepler orbit after some time.
pub fn kepler(mu: f64, r0: V3, v0: V3, dt: f64) -> Option<(V3, V3)> {
    let r = norm(r0);
    let v2 = dot(v0, v0);
    let a = 1. / (2. / r - v2 / mu);
    if !(a > 0.) {
        return None;
    }
    let n = (mu / (a * a * a)).sqrt();
    // e cos E0 and e sin E0
    let ec = 1. - r / a;
    let es = dot(r0, v0) / (mu * a).sqrt();
    // Solve x - ec sin x + es (1 - cos x) = n dt for the change x of the eccentric anomaly
    let m = n * dt;
    let (mut lo, mut hi) = (m - 2., m + 2.);
    let f = |x: f64| x - ec * x.sin() + es * (1. - x.cos()) - m;
    let mut x = m;
    for _ in 0..200 {
        let y = f(x);
        if y > 0. {
            hi = x;
        } else {
            lo = x;
        }
        let d = 1. - ec * x.cos() + es * x.sin();
        let nx = x - y / d;
        let nx = if nx > lo && nx < hi { nx } else { 0.5 * (lo + hi) };
        if (nx - x).abs() < 1e-16 * (1. + x.abs()) {
            x = nx;
            break;
        }
        x = nx;
    }
    let (sx, cx) = x.sin_cos();
    let f = 1. - a / r * (1. - cx);
    let g = dt - (x - sx) / n;
    let pos = add(scale(r0, f), scale(v0, g));
    let rn = norm(pos);
    let fd = -(mu * a).sqrt() / (r * rn) * sx;
    let gd = 1. - a / rn * (1. - cx);
    Some((pos, add(scale(r0, fd), scale(v0, gd))))
}

/// A vehicle without forces but gravity, on an elliptic orbit.
fn orbit_mission(r: &mut Rng, pure: bool) -> (Mission, f64) {
    let far = if r.p(0.15) { (1e7, 1e9) } else { (1e5, 1e7) };
    orbit_at(r, pure, far)
}

/// Days to months in one mission.
fn voyage(ctx: &mut Ctx) -> (Mission, MRun) {
    ctx.count("missions of days to months");
    loop {
        let r = &mut ctx.r;
        let (mut m, period) = orbit_at(r, false, (3e7, 2e9));
        let h = period * r.log(1e-3, 2e-2);
        m.phases[0].stepsize = Some(h);
        let n = r.int(1, 4);
        for i in 0..n {
            let t = period * r.log(0.05, 2.);
            let mut p = if i == 0 { m.phases.pop().unwrap() } else { PhaseCfg::default() };
            p.end = Some((var(if i == 0 { r.pick(&["time", "time_since_event"]) } else { "time_since_event" }), if r.p(0.5) { t.round() } else { t }));
            if i > 0 && r.p(0.3) {
                p.stepsize = Some(h * r.range(0.3, 1.5));
            }
            m.phases.push(p);
        }
        let run = crate::model::run(&m, 20_000);
        if run.end == End::Done && !run.ill() {
            return (m, run);
        }
    }
}

fn orbit_at(r: &mut Rng, pure: bool, alt: (f64, f64)) -> (Mission, f64) {
    let re = 6.378e6 * r.range(0.5, 2.);
    let g0 = r.range(2., 20.);
    let mu = g0 * re * re;
    let alt = r.log(alt.0, alt.1);
    let lat = r.range(-70., 70.);
    let rp = if pure { re } else { re * r.range(0.97, 1.) };
    let rr = re + alt;
    // Speed at the apsis relative to a circular orbit
    let k = r.range(0.85, 1.25);
    let rate = r.sign() * k * (mu / rr.powi(3)).sqrt() / lat.to_radians().cos();
    let j = if pure { [0.; 3] } else { [r.sign() * r.log(1e-5, 3e-3), r.range(-1e-4, 1e-4), r.range(-1e-4, 1e-4)] };
    let period = 2. * std::f64::consts::PI * (rr.powi(3) / mu).sqrt();
    let mut p = PhaseCfg {
        init: Some(Init { lat, long: r.range(-180., 360.), az: r.range(0., 360.), alt }),
        planet: Some(Planet::Custom { re, rp, g: [mu, j[0], j[1], j[2]], rate }),
        vehicle: Some(VehicleCfg { structure: Some(r.log(1., 1e5)), propellant: Some(0.), ..Default::default() }),
        ..Default::default()
    };
    if r.p(0.5) {
        p.max_acc = Some(r.range(1., 50.));
    }
    if r.p(0.5) {
        p.vehicle.as_mut().unwrap().engines = Some(vec![]);
        p.atmosphere = Some((Some(false), Some(gen::wind(r, 100.))));
    }
    p.stepsize = Some(period / 1000. * r.range(0.3, 1.));
    (Mission { phases: vec![p] }, period)
}

fn with_end(m: &Mission, stepsize: f64, steps: usize) -> Mission {
    let mut m = m.clone();
    let p = m.phases.last_mut().unwrap();
    p.stepsize = Some(stepsize);
    p.end = Some((var("time_since_event"), stepsize * steps as f64));
    m
}

/// Errors against the exact solution with three step sizes must fall with the fourth power.
fn convergence(ctx: &mut Ctx, m: &Mission, total: f64, n: usize, exact: &dyn Fn(&S, f64) -> Option<(V3, V3)>) {
    let mut errs = vec![];
    let mut size = 0.;
    for k in [1, 2, 4] {
        let mm = with_end(m, total / (n * k) as f64, n * k);
        let Some((t, text)) = ctx.run_expected(&mm, n * k) else { return };
        let (a, b) = (t.phases[0].start, t.last.unwrap());
        let Some((p, v)) = exact(&a, b.time) else { return };
        size = norm(p).max(norm(a.pos));
        errs.push((dist(b.pos, p) / size + dist(b.vel, v) / (norm(v) + norm(a.vel)), text, b));
    }
    let floor = 1e-13 * (n * 4) as f64;
    for i in 0..2 {
        let (e0, e1) = (errs[i].0, errs[i + 1].0);
        // Asymptotic range only
        if e0 < 2e-3 && e1 > 30. * floor {
            ctx.count("convergence orders judged");
            ctx.seen(mix(&[e0.to_bits(), e1.to_bits(), size.to_bits()]));
            let order = (e0 / e1).log2();
            ctx.add("sum of orders x100", (order * 100.).max(0.) as u64);
            if order < 3.3 {
                ctx.fail(
                    format!("halving the step size lowers the error of the exact solution from {e0:e} to {e1:e} only: order {order:.2}"),
                    &errs[i + 1].1,
                );
                return;
            }
        } else if e1 > 1e-2 && e0 > 1e-2 {
            ctx.count("not asymptotic");
        }
    }
    // The finest one must be accurate
    let e = errs[2].0;
    if errs[0].0 > 0.5 {
        return;
    }
    if e > 1e-2 {
        ctx.fail(format!("error {e:e} against the exact solution, with {} steps", n * 4), &errs[2].1);
    }
}

fn c02(ctx: &mut Ctx) {
    match ctx.case % 8 {
        0 => {
            let (m, period) = orbit_mission(&mut ctx.r, true);
            let p = m.phases[0].planet.as_ref().unwrap().params();
            let total = period * ctx.r.range(0.1, 0.7);
            let n = ctx.r.int(8, 30);
            convergence(ctx, &m, total, n, &|s, dt| kepler(p.mu, s.pos, s.vel, dt));
        }
        1 => {
            // Constant thrust without gravity: the rocket equation
            let r = &mut ctx.r;
            let thrust = r.log(1e3, 1e6);
            let isp = r.range(200., 450.);
            let flow = thrust / (isp * G0);
            let total = r.range(50., 400.);
            let burn = flow * total;
            let structure = burn * r.range(0.1, 1.);
            let en = Engine { incidence: [r.range(-3., 3.), r.range(-1.5, 1.5)], thrust, isp, area: r.range(0., 10.) };
            let p = PhaseCfg {
                init: Some(Init { lat: r.range(-90., 90.), long: r.range(0., 360.), az: r.range(0., 360.), alt: r.log(1e3, 1e7) }),
                planet: Some(Planet::Custom { re: 6e6, rp: 6e6, g: [0.; 4], rate: r.range(-1e-4, 1e-4) }),
                vehicle: Some(VehicleCfg { structure: Some(structure), propellant: Some(burn * 1.01), engines: Some(vec![en.clone()]), ..Default::default() }),
                steering: Some([Some((0, [0.; 3])), None, None]),
                ..Default::default()
            };
            let m = Mission { phases: vec![p] };
            let n = ctx.r.int(3, 12);
            let ve = isp * G0;
            let launch = m.phases[0].init.as_ref().map(|i| launch_frame(&m.phases[0].planet.as_ref().unwrap().params(), i)).unwrap();
            let axes = body_axes(launch, [0.; 3]);
            let dir = from_body(&axes, scale(full_thrust(&[en], 0.), 1. / thrust));
            convergence(ctx, &m, total, n, &|s, dt| {
                let m1 = s.mass - flow * dt;
                let dv = ve * (s.mass / m1).ln();
                let dx = ve * dt - ve * m1 / flow * (s.mass / m1).ln();
                Some((add(add(s.pos, scale(s.vel, dt)), scale(dir, dx)), add(s.vel, scale(dir, dv))))
            });
        }
        2 => {
            let (m, _) = orbit_mission(&mut ctx.r, false);
            let n = ctx.r.int(1, 40);
            let m = with_end(&m, m.phases[0].stepsize.unwrap() * ctx.r.log(1., 20.), n);
            judge_steps(ctx, &m, n);
        }
        3 => {
            let m = gen::probe(&mut ctx.r, &ProbeOpt { steps: 4, phases: (1, 4), wind: 500., limit: 0.3, ..gen::PROBE });
            judge_steps(ctx, &m, 60);
        }
        _ => {
            let (m, run) = gen::flight(&mut ctx.r, &FlightOpt::default());
            judge_steps(ctx, &m, run.steps);
        }
    }
}

// ---------------------------------------------------------------- C03, C04, C05, C06, C07

fn c03(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("gravity", o::gravity_at)];
    match ctx.case % 5 {
        0 => {
            let (m, _) = orbit_mission(&mut ctx.r, false);
            let n = ctx.r.int(1, 60);
            let m = with_end(&m, m.phases[0].stepsize.unwrap() * ctx.r.log(1., 20.), n);
            judge_states(ctx, &m, n, or);
        }
        1 => flights(ctx, &FlightOpt { change_planet: 0.4, max_steps: 25, ..Default::default() }, or),
        _ => probes(ctx, &ProbeOpt { phases: (1, 4), atm: 0.2, limit: 0., max_nodes: 2, ..gen::PROBE }, or),
    }
}

/// Probes the atmosphere at chosen geopotential altitudes.
fn air_probe(r: &mut Rng) -> Mission {
    let pl = if r.p(0.7) { r.pick(&[Planet::Spherical, Planet::Fisher, Planet::Smithsonian]) } else { gen::custom_planet(r) };
    let q = pl.params();
    let l = r.below(ATMOS.len());
    let base = ATMOS[l].0 * 0.3048;
    let top = if l + 1 < ATMOS.len() { ATMOS[l + 1].0 * 0.3048 } else { base * 1.6 };
    let hg = match r.below(6) {
        0 => base + r.log(1e-3, 10.),
        1 => top - r.log(1e-3, 10.),
        2 => base,
        3 if l == 0 => -r.log(1e-2, 4900.),
        _ => r.range(base, top),
    };
    let ravg = 0.5 * (q.re + q.rp);
    let hg = hg.min(0.9 * ravg);
    let alt = ravg * hg / (ravg - hg);
    let mut i = gen::init(r);
    i.alt = alt;
    let w = gen::wind(r, r.clone().pick(&[10., 300., 3000., 9000.]));
    Mission {
        phases: vec![PhaseCfg {
            init: Some(i),
            planet: Some(pl),
            atmosphere: Some((Some(true), Some(w))),
            vehicle: Some(VehicleCfg { structure: Some(1000.), ..Default::default() }),
            stepsize: Some(r.log(1e-3, 60.)),
            ..Default::default()
        }],
    }
}

fn c04(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("atmosphere", o::air)];
    match ctx.case % 6 {
        0 => flights(ctx, &FlightOpt { atm: 0.8, churn: 0.5, launch: 0.7, thrust: 0.95, ..Default::default() }, or),
        1 => probes(ctx, &ProbeOpt { phases: (1, 5), atm: 0.6, max_alt: 9e5, limit: 0., max_nodes: 2, ..gen::PROBE }, or),
        2 => hydrostatic(ctx),
        _ => {
            let m = air_probe(&mut ctx.r);
            judge_states(ctx, &m, 10, or);
        }
    }
}

/// Pressure must fall with altitude as the weight of the air in between
/// demands, also across layer boundaries.
fn hydrostatic(ctx: &mut Ctx) {
    let mut m = air_probe(&mut ctx.r);
    m.phases[0].end = Some((var("time_since_event"), 0.));
    let alt = m.phases[0].init.as_ref().unwrap().alt;
    let dh = ctx.r.log(0.1, 30.);
    let mut s = vec![];
    let mut text = String::new();
    for k in 0..3 {
        let mut mm = m.clone();
        mm.phases[0].init.as_mut().unwrap().alt = alt + k as f64 * dh;
        let Some((t, x)) = ctx.run_expected(&mm, 10) else { return };
        s.push(t.last.unwrap());
        text = x;
    }
    ctx.count("pressure profiles judged");
    ctx.seen(mix(&[alt.to_bits(), dh.to_bits()]));
    let d = s[2].altg - s[0].altg;
    // Simpson's rule for the weight of the air
    let weight = G0 * d / 6. * (s[0].dens + 4. * s[1].dens + s[2].dens);
    let drop = s[0].pres - s[2].pres;
    let gap = (drop - weight).abs();
    // The published layers fit to about 2e-6 of the pressure
    let kinks = (0..3).any(|i| boundary_distance(s[i].altg) <= 2.5 * dh);
    let tol = if kinks { 5e-6 * s[0].pres + 0.02 * weight.abs() } else { 1e-10 * s[0].pres + 1e-6 * weight.abs() };
    if gap > tol {
        ctx.fail(
            format!(
                "pressure falls by {drop:e} between {} m and {} m geopotential altitude, but the air in between weighs {weight:e}",
                s[0].altg, s[2].altg
            ),
            &text,
        );
    }
}

fn c05(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("aerodynamic force from the tables", o::aero_at)];
    match ctx.case % 5 {
        0 => flights(
            ctx,
            &FlightOpt { tables: 1., atm: 1., limit: 0., churn: 0.5, max_steps: 25, ..Default::default() },
            or,
        ),
        1 => table_sweep(ctx),
        _ => probes(
            ctx,
            &ProbeOpt { phases: (1, 4), atm: 1., limit: 0., max_nodes: 60, max_alt: 6e4, wind: 1500., ..gen::PROBE },
            or,
        ),
    }
}

/// One table against many values of its variables, as seen through the side force:
/// the measured coefficient must be the interpolated one.
fn table_sweep(ctx: &mut Ctx) {
    let r = &mut ctx.r;
    let mut base = air_probe(r);
    let p = &mut base.phases[0];
    p.init.as_mut().unwrap().alt = r.range(0., 3e4);
    p.atmosphere = Some((Some(true), Some([r.range(50., 900.), r.range(-500., 500.), r.range(-500., 500.)])));
    p.end = Some((var("time_since_event"), 0.));
    let s = Carry::new().start(p, true).1;
    let vars: Vec<Var> = ["altitude", "mach_number", "mass", "alpha", "velocity_planet1", "pressure", "position3", "euler_angles_pitch"].iter().map(|n| var(n)).collect();
    // Now and then an axis of up to more nodes than a 16 bit number holds
    let long = ctx.case % 200 == 1;
    let dims = if long { r.pick(&[1, 1, 2]) } else { r.pick(&[1, 1, 2, 2, 3]) };
    let mut axes = vec![];
    for i in 0..dims {
        let v = r.pick(&vars);
        let n = match (long, i) {
            (true, 0) => r.log(100., 80_000.) as usize,
            (true, _) => r.int(1, 3),
            _ => r.pick(&[1, 2, 3, 5, 8, 17, 33]),
        };
        axes.push((v, gen::nodes(r, vget(v, &s), n, gen::width(v))));
    }
    if long {
        if r.p(0.5) {
            axes.reverse();
        }
        ctx.count("tables of 100 to 80000 nodes per axis");
    }
    let r = &mut ctx.r;
    let total: usize = axes.iter().map(|a| a.1.len()).product();
    let t = Table { axes: axes.clone(), data: (0..total).map(|_| r.range(-2., 2.)).collect(), interp: r.p(0.5) };
    let which = r.below(3);
    let mut v = VehicleCfg { structure: Some(1000.), area: Some(r.range(1., 20.)), ..Default::default() };
    match which {
        0 => v.side = Some(t),
        1 => v.drag = Some(t),
        _ => v.lift = Some(t),
    }
    base.phases[0].vehicle = Some(v);
    // Vary what the table depends on
    let n = 6;
    for _ in 0..n {
        let mut m = base.clone();
        let r = &mut ctx.r;
        let p = &mut m.phases[0];
        for (v, nodes) in &axes {
            let (lo, hi) = (nodes[0], *nodes.last().unwrap());
            let d = (hi - lo).max(gen::width(*v) * 0.1);
            let x = match r.below(5) {
                0 => lo - d * r.range(0., 1.),
                1 => hi + d * r.range(0., 1.),
                2 => nodes[r.below(nodes.len())],
                _ => r.range(lo, hi),
            };
            match vname(*v) {
                "altitude" => p.init.as_mut().unwrap().alt = x.clamp(0., 5e4),
                "mass" => p.vehicle.as_mut().unwrap().structure = Some(x.max(1.)),
                "euler_angles_pitch" => {
                    // The pitch is c * time of the planet-relative position, which is known at the start
                    let y = vget(var("position_norm"), &s);
                    p.steering = Some([None, None, Some((var("position_norm"), [x.to_degrees() / y, 0., 0.]))]);
                }
                "velocity_planet1" | "mach_number" => {
                    if let Some((_, Some(w))) = &mut p.atmosphere {
                        *w = [r.range(50., 900.), r.range(-500., 500.), w[2]];
                    }
                }
                _ => {}
            }
        }
        let or: &[(&str, Oracle)] = &[("coefficient table", o::aero_at)];
        let mut c = Carry::new();
        let (env, s, f) = c.start(&m.phases[0], true);
        let (ph, end) = run_phase(&env, s, f, 10);
        if end != End::Done || ph.flags.ill {
            continue;
        }
        if judge_states(ctx, &m, 10, or).is_none() {
            return;
        }
    }
}

fn c06(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("angle of attack", o::alpha_at), ("aerodynamic force", o::aero_at)];
    match ctx.case % 5 {
        0 => flights(ctx, &FlightOpt { atm: 1., limit: 0., steer: 180., ..Default::default() }, or),
        1 => axis_aligned_air(ctx, or),
        _ => probes(
            ctx,
            &ProbeOpt { phases: (1, 4), atm: 0.95, limit: 0., max_nodes: 6, max_alt: 9e4, steer: 180., ..gen::PROBE },
            or,
        ),
    }
}

/// Air from exactly above, below, behind or the side of the vehicle.
fn axis_aligned_air(ctx: &mut Ctx, or: &[(&str, Oracle)]) {
    let r = &mut ctx.r;
    // On the equator without rotation, the launch frame axes are along inertial ones
    let az = r.pick(&[0., 90., 180., 270.]);
    let w = r.log(1., 1000.);
    let e = r.pick(&[0., 0., 1e-8, 1e-3, 0.5]) * w;
    let mut wind = [0.; 3];
    wind[r.below(3)] = w * r.sign();
    wind[r.below(3)] += e * r.sign();
    let con = |r: &mut Rng| Some(Table::constant(r.range(-2., 2.)));
    let v = VehicleCfg {
        structure: Some(r.log(10., 1e5)),
        area: Some(r.log(0.1, 100.)),
        drag: con(r),
        lift: if r.p(0.8) { con(r) } else { None },
        side: if r.p(0.5) { con(r) } else { None },
        ..Default::default()
    };
    let m = Mission {
        phases: vec![PhaseCfg {
            init: Some(Init { lat: 0., long: 0., az, alt: r.range(0., 3e4) }),
            planet: Some(Planet::Custom { re: 6.4e6, rp: 6.4e6, g: [4e14, 0., 0., 0.], rate: 0. }),
            atmosphere: Some((Some(true), Some(wind))),
            vehicle: Some(v),
            stepsize: Some(r.log(1e-4, 0.1)),
            end: Some((var("time_since_event"), 0.)),
            ..Default::default()
        }],
    };
    judge_states(ctx, &m, 10, or);
}

fn c07(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("thrust and mass flow", o::thrust_at)];
    match ctx.case % 5 {
        0 => flights(ctx, &FlightOpt { thrust: 0.9, limit: 0.5, churn: 0.6, max_steps: 25, ..Default::default() }, or),
        1 => {
            // Pressure matters: thick air, big nozzles
            let mut m = gen::probe(
                &mut ctx.r,
                &ProbeOpt { phases: (1, 3), atm: 1., limit: 0., max_alt: 2e4, max_nodes: 2, engine_angle: 3.2, ..gen::PROBE },
            );
            for p in &mut m.phases {
                if let Some(Some(e)) = p.vehicle.as_mut().map(|v| v.engines.as_mut()) {
                    for x in e.iter_mut() {
                        x.area *= ctx.r.range(0., 6.);
                    }
                }
            }
            let run = crate::model::run(&m, 200);
            if run.end == End::Done && !run.ill() {
                judge_states(ctx, &m, 60, or);
            }
        }
        _ => probes(ctx, &ProbeOpt { phases: (1, 5), engine_angle: 3.2, limit: 0.5, max_nodes: 3, ..gen::PROBE }, or),
    }
}

// ---------------------------------------------------------------- C08

fn c08(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("throttle and acceleration limit", o::throttle_at)];
    match ctx.case % 8 {
        0 | 1 => flights(ctx, &FlightOpt { limit: 0.9, churn: 0.5, thrust: 0.97, max_steps: 30, ..Default::default() }, or),
        2 | 3 => impossible(ctx),
        4 => {
            // The limit exists only in some phases
            let mut fo = FlightOpt { limit: 0.4, churn: 0.2, thrust: 0.97, phases: (3, 8), max_steps: 12, ..Default::default() };
            fo.end_vars = vec![var("time_since_event"), var("mass"), var("time")];
            flights(ctx, &fo, or)
        }
        _ => probes(
            ctx,
            &ProbeOpt { phases: (1, 4), limit: 0.9, atm: 0.9, max_alt: 5e4, wind: 800., max_nodes: 3, engine_angle: 1., axial: 0.25, ..gen::PROBE },
            or,
        ),
    }
}

/// A mission which at some point gets more air forces than its limit allows.
pub fn overloaded(ctx: &mut Ctx) -> Option<(Mission, MRun)> {
    let fo = FlightOpt { phases: (1, 5), limit: 0., atm: 1., thrust: 0.95, tables: 1., max_steps: 25, ..Default::default() };
    let (mut m, run) = gen::flight(&mut ctx.r, &fo);
    let i = ctx.r.below(m.phases.len());
    let acc = |s: &S| norm(s.aero) / s.mass;
    let worst = run.phases.get(i)?.steps.iter().map(acc).fold(0., f64::max);
    if !(worst > 1e-3) {
        return None;
    }
    m.phases[i].max_acc = Some(worst * ctx.r.range(0.2, 0.98));
    let run = crate::model::run(&m, 2000);
    if run.ill() || run.end != End::MaxAcc {
        return None;
    }
    Some((m, run))
}

/// Where no throttle setting keeps the limit, the run must not go on.
fn impossible(ctx: &mut Ctx) {
    let po = ProbeOpt { phases: (1, 1), limit: 0., atm: 1., max_alt: 2e4, wind: 800., max_nodes: 3, engine_angle: 1., steps: 3, axial: 0.15, ..gen::PROBE };
    let mut m = gen::probe(&mut ctx.r, &po);
    let run = crate::model::run(&m, 50);
    let Some(s) = run.last() else { return };
    let a = norm(s.aero) / s.mass;
    if !(a > 1e-3) {
        return;
    }
    m.phases[0].max_acc = Some(a * ctx.r.range(0.1, 0.99));
    let run = crate::model::run(&m, 50);
    if run.ill() {
        return;
    }
    match run.end {
        End::Done => {
            judge_states(ctx, &m, 50, &[("throttle and acceleration limit", o::throttle_at)]);
        }
        End::MaxAcc => {
            let (t, text) = ctx.run(&m, 500);
            ctx.count("runs which must abort");
            ctx.seen(mix(&[a.to_bits(), s.mass.to_bits()]));
            for w in walks(&m, &t) {
                for s in w.states() {
                    if let Err(e) = o::throttle_at(&w.env, s) {
                        ctx.fail(format!("time {}: {e}", s.time), &text);
                        return;
                    }
                }
            }
            if t.out == Out::Done {
                ctx.fail("the run completed, although the maximum acceleration cannot be kept".into(), &text);
            } else if !matches!(t.out, Out::Panic(_)) {
                ctx.fail(format!("the run did not abort, although the maximum acceleration cannot be kept: {:?}", t.out), &text);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- C09

fn c09(ctx: &mut Ctx) {
    let fo = match ctx.case % 4 {
        0 => FlightOpt { phases: (2, 8), churn: 0.9, limit: 0.3, max_steps: 12, thrust: 0.95, ..Default::default() },
        1 => FlightOpt { limit: 0., thrust: 1., max_steps: 60, ..Default::default() },
        2 => FlightOpt { phases: (3, 10), churn: 0.6, limit: 0., thrust: 1., max_steps: 6, end_vars: vec![var("mass"), var("propellant_mass"), var("time_since_event")], ..Default::default() },
        _ => FlightOpt { limit: 1., thrust: 1., ..Default::default() },
    };
    let fo = if ctx.case % 60 == 7 { gen::chain_opt(&mut ctx.r) } else { fo };
    let (m, run) = gen::flight(&mut ctx.r, &fo);
    let Some((t, text)) = ctx.run_expected(&m, run.steps) else { return };
    if let Err(e) = mass_history(ctx, &m, &t) {
        ctx.fail(e, &text);
    }
    ctx.sample(|| text.chars().take(1500).collect());
}

fn mass_history(ctx: &mut Ctx, m: &Mission, t: &Trace) -> Result<(), String> {
    for w in walks(m, t) {
        let at = |s: &S| format!("phase {}, time {}", w.i + 1, s.time);
        // At the start of the phase
        let (pp, pm) = w.prev.map_or((0., 0.), |s| (s.prop, s.mass));
        let want = start_mass(w.cfg, &w.env.eff, pp, pm);
        let s = &w.ph.start;
        if (s.mass - want).abs() > 1e-14 * (want.abs() + pm + pp) {
            return Err(format!("{}: the phase starts with a mass of {:e}, should be {want:e}", at(s), s.mass));
        }
        ctx.count("phase start masses judged");
        for s in w.states() {
            o::propellant(&w.env, s).map_err(|e| format!("{}: {e}", at(s)))?;
        }
        let flow = full_flow(&w.env.eff.engines);
        for (a, b, end) in w.advances() {
            let h = b.tse - a.tse;
            let used = a.mass - b.mass;
            let tol = 1e-14 * a.mass * 4. + flow_size(&w.env.eff.engines) * (1e-12 * h + 1e-15 * (b.time + b.tse));
            if w.env.eff.max_acc.is_infinite() || flow == 0. {
                if (used - flow * h).abs() > tol {
                    return Err(format!("{}: {used:e} kg of propellant used in {h:e} s, should be {:e}", at(&b), flow * h));
                }
                ctx.count("steps at full throttle judged");
            } else {
                if used < -tol || used > flow * h + tol {
                    return Err(format!("{}: {used:e} kg of propellant used in {h:e} s, must be between 0 and {:e}", at(&b), flow * h));
                }
                ctx.count("throttled steps judged");
                if h <= w.env.eff.stepsize * (1. + 1e-9) && (run::hooked() || !end) {
                    o::step(&w.env, &a, &b).map_err(|e| format!("{}: {e}", at(&b)))?;
                }
            }
            if flow != 0. {
                ctx.seen(mix(&[b.mass.to_bits(), b.time.to_bits()]));
            }
        }
        // Over the whole phase
        let (a, b) = (&w.ph.start, w.last());
        if w.env.eff.max_acc.is_infinite() {
            let used = a.mass - b.mass;
            let want = flow * (b.tse - a.tse);
            if (used - want).abs() > 1e-12 * a.mass + 1e-11 * want.abs() {
                return Err(format!("{}: {used:e} kg of propellant used in the phase, should be {want:e}", at(b)));
            }
            ctx.count("phase budgets judged");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("attitude", o::attitude)];
    match ctx.case % 4 {
        0 => probes(ctx, &ProbeOpt { phases: (1, 6), atm: 0.8, limit: 0., max_nodes: 3, steer: 200., max_alt: 4e5, steps: 3, ..gen::PROBE }, or),
        1 => steering_chain(ctx),
        _ => flights(ctx, &FlightOpt { phases: (2, 8), churn: 0.5, limit: 0.1, max_steps: 15, steer: 60., ..Default::default() }, or),
    }
}

/// Steering by the time since the event is continuous over any number of phases.
fn steering_chain(ctx: &mut Ctx) {
    let r = &mut ctx.r;
    let tse = var("time_since_event");
    let n = if r.p(0.03) { r.int(20, 200) } else { r.int(3, 14) };
    let h = r.pick(&[0.5, 1., 2.]);
    let mut m = Mission::default();
    let mut cur: [Axis; 3] = [(0, [0.; 3]); 3];
    for i in 0..n {
        let mut p = PhaseCfg::default();
        if i == 0 {
            p.init = Some(Init { lat: gen::latitude(r), long: r.range(0., 360.), az: r.range(0., 360.), alt: 3e5 });
            p.stepsize = Some(h);
            p.vehicle = Some(VehicleCfg { structure: Some(1e3), propellant: Some(1e2), ..Default::default() });
        }
        if r.p(0.75) {
            let mut st = [None; 3];
            for k in 0..3 {
                if r.p(0.5) || i == 0 {
                    st[k] = Some((tse, [r.range(-3., 3.), r.range(-0.2, 0.2), r.range(-0.02, 0.02)]));
                    cur[k] = st[k].unwrap();
                }
            }
            p.steering = Some(st);
        }
        p.end = Some((tse, h * r.int(1, 6) as f64));
        m.phases.push(p);
    }
    let Some(t) = judge_states(ctx, &m, 6 * n, &[("attitude", o::attitude)]) else { return };
    for w in walks(&m, &t) {
        if let Some(prev) = w.prev {
            for k in 0..3 {
                if (w.ph.start.euler[k] - prev.euler[k]).abs() > 1e-13 * (1. + prev.euler[k].abs()) {
                    let text = m.plain();
                    ctx.fail(format!("phase {}: Euler angles jump from {:?} to {:?}", w.i + 1, prev.euler, w.ph.start.euler), &text);
                    return;
                }
            }
            ctx.count("phase changes judged");
        }
    }
}

// ---------------------------------------------------------------- C11, C12

/// A mission of more than 65536 steps.
fn marathon(ctx: &mut Ctx) -> (Mission, MRun) {
    ctx.keep = false;
    ctx.count("missions of more than 65536 steps");
    let m = gen::marathon(&mut ctx.r, 66_000);
    m
}

/// Missions to watch the end of phases.
fn event_mission(ctx: &mut Ctx) -> (Mission, MRun) {
    if ctx.case % 250 == 9 {
        return marathon(ctx);
    }
    if ctx.case % 50 == 29 {
        return voyage(ctx);
    }
    if ctx.case % 50 == 8 {
        let fo = gen::chain_opt(&mut ctx.r);
        ctx.count("missions of 40 to 300 phases");
        return gen::flight(&mut ctx.r, &fo);
    }
    let fo = match ctx.case % 5 {
        0 => FlightOpt { phases: (4, 12), max_steps: 8, churn: 0.3, ..Default::default() },
        1 => FlightOpt { phases: (1, 3), max_steps: 120, stepsize: (0.02, 2.), ..Default::default() },
        2 => FlightOpt { thrust: 0.2, launch: 0., atm: 0.5, max_steps: 30, stepsize: (0.5, 30.), ..Default::default() },
        3 => FlightOpt { phases: (1, 5), stepsize: (2., 30.), ..Default::default() },
        _ => FlightOpt::default(),
    };
    if ctx.case % 10 == 7 {
        return small_target(ctx);
    }
    gen::flight(&mut ctx.r, &fo)
}

/// An orbit which crosses targets often and far from zero curvature: many tries.
fn small_target(ctx: &mut Ctx) -> (Mission, MRun) {
    loop {
        let (mut m, period) = orbit_mission(&mut ctx.r, false);
        let r = &mut ctx.r;
        m.phases[0].stepsize = Some(period * r.log(1e-3, 0.1));
        let h = m.phases[0].stepsize.unwrap();
        m.phases[0].end = Some((0, f64::MAX));
        let free = crate::model::run(&m, 40);
        let st: Vec<S> = free.phases[0].steps.clone();
        for _ in 0..r.int(1, 5) {
            let k = r.below(st.len() - 1);
            let vars = ["position1", "position2", "position3", "velocity1", "velocity3", "altitude", "position_planet1", "velocity_norm", "gravity_acceleration2", "position_norm"];
            let v = var(r.pick(&vars));
            let t = vget(v, &st[k]) + r.f() * (vget(v, &st[k + 1]) - vget(v, &st[k]));
            let t = if r.p(0.3) { t.round() } else { t };
            let mut p = if m.phases[0].end.unwrap().1 == f64::MAX { m.phases.pop().unwrap() } else { PhaseCfg::default() };
            p.end = Some((v, t));
            if !m.phases.is_empty() && r.p(0.3) {
                p.stepsize = Some(h * r.range(0.3, 1.5));
            }
            m.phases.push(p);
            let run = crate::model::run(&m, 4000);
            if run.end != End::Done || run.ill() {
                m.phases.pop();
                if m.phases.is_empty() {
                    break;
                }
            }
        }
        if m.phases.is_empty() || m.phases[0].end.unwrap().1 == f64::MAX {
            continue;
        }
        let run = crate::model::run(&m, 5000);
        if run.end == End::Done && !run.ill() {
            return (m, run);
        }
    }
}

/// A mission whose last target is passed, but never met: the variable jumps over it.
/// A mission whose last target is jumped over again and again.
pub fn jumping(ctx: &mut Ctx) -> Option<(Mission, MRun)> {
    let r = &mut ctx.r;
    let re = r.log(1e6, 2e7);
    let g0 = r.range(1., 20.);
    let lat = if r.p(0.5) { 0. } else { r.range(-80., 80.) };
    let y = var("time");
    // The nose swings through the direction of the air from behind
    let t = r.log(1., 40.);
    let rate = r.log(0.1, 20.) * r.sign();
    let w = if r.p(0.5) { [0.; 3] } else { gen::wind(r, 30.) };
    let p = PhaseCfg {
        init: Some(Init { lat, long: r.range(-180., 180.), az: r.range(0., 360.), alt: r.log(1., 1e6) }),
        planet: Some(Planet::Custom { re, rp: re * r.pick(&[1., 1., 0.99]), g: [g0 * re * re, 0., 0., 0.], rate: r.pick(&[0., 0., 1e-5, -1e-5]) }),
        vehicle: Some(VehicleCfg { structure: Some(r.log(1., 1e5)), propellant: Some(r.pick(&[0., 1e3])), ..Default::default() }),
        stepsize: Some(r.log(0.05, 5.)),
        steering: Some([None, None, Some((y, [rate, -rate / t, 0.]))]),
        atmosphere: Some((Some(r.p(0.8)), Some(w))),
        end: Some((y, t * r.range(0.3, 0.95))),
        ..Default::default()
    };
    let v = var("alpha");
    let q = PhaseCfg { end: Some((0, f64::MAX)), stepsize: if r.p(0.3) { Some(r.log(0.05, 5.)) } else { None }, ..Default::default() };
    let mut m = Mission { phases: vec![p, q] };
    // Where does it go on its own?
    let free = crate::model::run(&m, 150);
    if free.end != End::Budget || free.phases.len() != 2 {
        return None;
    }
    let st = &free.phases[1].steps;
    let jumps: Vec<usize> = (1..st.len()).filter(|&i| (vget(v, &st[i]) - vget(v, &st[i - 1])).abs() > 1.4).collect();
    if jumps.is_empty() {
        return None;
    }
    let r = &mut ctx.r;
    let i = if r.p(0.6) { jumps[0] } else { r.pick(&jumps) };
    let (a, b) = (vget(v, &st[i - 1]), vget(v, &st[i]));
    let f = match r.below(3) {
        0 => r.log(1e-3, 0.5),
        1 => 1. - r.log(1e-3, 0.5),
        _ => r.f(),
    };
    let target = a + f * (b - a);
    m.phases[1].end = Some((v, target));
    let run = crate::model::run(&m, 20_000);
    if run.phases.len() != 2 || run.end != End::NoCrossing {
        return None;
    }
    Some((m, run))
}

fn unhittable(ctx: &mut Ctx) {
    let Some((m, run)) = jumping(ctx) else { return };
    let (v, target) = run.phases[1].env.eff.end;
    let (t, text) = ctx.run(&m, 200_000);
    ctx.count("missions with a target which cannot be hit");
    ctx.seen(mix(&[target.to_bits(), t.steps() as u64]));
    match &t.out {
        Out::Panic(_) => ctx.count("aborted after jumps over the target"),
        Out::Done => {
            let Some(l) = &t.last else { return };
            if (vget(v, l) - target).abs() >= 1e-3 {
                ctx.fail(format!("the run ended with {} = {:e} instead of {target:e}", vname(v), vget(v, l)), &text);
            }
        }
        o => ctx.fail(format!("{} jumps over {target:e}, but the run does not end with an error: {o:?}", vname(v)), &text),
    }
}

fn c11(ctx: &mut Ctx) {
    if ctx.case % 12 == 5 {
        return unhittable(ctx);
    }
    let (m, run) = event_mission(ctx);
    let Some((t, text)) = ctx.run_expected(&m, run.steps) else { return };
    if let Err(e) = phase_ends(ctx, &m, &t, &run) {
        ctx.fail(e, &text);
    }
    ctx.sample(|| text.chars().take(1500).collect());
}

fn phase_ends(ctx: &mut Ctx, m: &Mission, t: &Trace, run: &MRun) -> Result<(), String> {
    for w in walks(m, t) {
        let (v, target) = w.env.eff.end;
        let name = vname(v);
        let d = |s: &S| vget(v, s) - target;
        let ph = format!("phase {} until {name} is {target:e}", w.i + 1);
        let last = w.last();
        let eps = 1e-12 * (target.abs() + 1.);
        if !(d(last).abs() < 1e-3 + eps) {
            return Err(format!("{ph}: ended at time {} with {name} = {:e}", last.time, vget(v, last)));
        }
        let n = w.ph.steps.len();
        for (i, (_, e)) in w.ph.steps.iter().enumerate() {
            if *e != (i + 1 == n) {
                return Err(format!("{ph}: step {} of {n} is {}an ending", i + 1, if *e { "" } else { "not " }));
            }
        }
        let reached_at_start = d(&w.ph.start).abs() < 1e-3 - eps;
        let adv = w.advances();
        // Never past the target, and no target missed
        for (a, b, end) in &adv {
            if run::hooked() && d(a) * d(b) < 0. && d(b).abs() > 1e-3 + eps {
                return Err(format!("{ph}: passed it between time {} and {} ({:e} to {:e})", a.time, b.time, vget(v, a), vget(v, b)));
            }
            if run::hooked() && !end && d(b).abs() < 1e-3 - eps {
                return Err(format!("{ph}: reached it at time {} ({:e}) but went on", b.time, vget(v, b)));
            }
            ctx.count("steps judged");
        }
        if reached_at_start && (adv.len() > 1 || last.tse > w.env.eff.stepsize * (1. + 1e-9)) {
            return Err(format!("{ph}: was reached at the start, but the phase went on until {} s after", last.tse));
        }
        // It must be the first time that the target is reached
        let mph = &run.phases[w.i];
        let mlast = mph.steps.last().unwrap();
        let h = w.env.eff.stepsize;
        if last.tse > mlast.tse + h * 1.001 + 1e-6 {
            return Err(format!("{ph}: reached {} s after the event, but the phase ended after {} s", mlast.tse, last.tse));
        }
        if last.tse < mlast.tse - h * 1.001 - 1e-6 {
            return Err(format!("{ph}: ended {} s after the event already, should be {} s", last.tse, mlast.tse));
        }
        ctx.count("phase ends judged");
        ctx.add("tries to hit a target", mph.tries as u64);
        if mph.tries > 1 {
            ctx.count("phases with several tries");
        }
        ctx.count(&format!("ended by {name}"));
        ctx.seen(mix(&[v as u64, target.to_bits(), last.time.to_bits(), w.i as u64]));
        // The next phase goes on from there
        if let Some(p) = &w.prev {
            let s = &w.ph.start;
            if s.time != p.time || s.pos != p.pos || s.vel != p.vel {
                return Err(format!("{ph}: does not start where the previous phase ended (time {} instead of {}, position {:?} instead of {:?})", s.time, p.time, s.pos, p.pos));
            }
        }
    }
    if let (Some(l), Some(p)) = (&t.last, t.phases.last()) {
        let s = p.steps.last().map_or(&p.start, |s| &s.0);
        if run::hooked() && l.bits() != s.bits() {
            return Err("the state returned is not the one at the end of the last phase".into());
        }
    }
    Ok(())
}

fn c12(ctx: &mut Ctx) {
    let (m, run) = event_mission(ctx);
    let Some((t, text)) = ctx.run_expected(&m, run.steps) else { return };
    if let Err(e) = clocks(ctx, &m, &t) {
        ctx.fail(e, &text);
    }
    ctx.sample(|| text.chars().take(1500).collect());
}

fn clocks(ctx: &mut Ctx, m: &Mission, t: &Trace) -> Result<(), String> {
    for w in walks(m, t) {
        let h = w.env.eff.stepsize;
        let s0 = &w.ph.start;
        let ph = format!("phase {}", w.i + 1);
        if w.i == 0 && s0.time != 0. {
            return Err(format!("the mission starts at time {}", s0.time));
        }
        if s0.tse != 0. {
            return Err(format!("{ph}: time since event is {} at its start", s0.tse));
        }
        if let Some(p) = w.prev {
            if p.time != s0.time {
                return Err(format!("{ph}: starts at time {}, but the previous one ended at {}", s0.time, p.time));
            }
        }
        let mut prev = *s0;
        let mut tried = false;
        let mut shortened = false;
        for (i, (s, end)) in w.ph.steps.iter().enumerate() {
            let dt = s.time - prev.time;
            let tol = 4e-16 * (s.time.abs() + prev.time.abs()) + 1e-14 * h;
            if dt < 0. {
                return Err(format!("{ph}: time goes back from {} to {}", prev.time, s.time));
            }
            let dte = s.tse - (s.time - s0.time);
            let n = if run::hooked() { (i + 1) as f64 } else { s.tse / h + 50. };
            let acc = n * 2e-16 * (s.time.abs() + s.tse.abs() + 1.) + 1e-15;
            if dte.abs() > acc {
                return Err(format!("{ph}: {} s since the event by the clock, but time_since_event is {}", s.time - s0.time, s.tse));
            }
            if dt == 0. {
                if s.bits() != prev.bits() {
                    return Err(format!("{ph}: the state changes while time stands still at {}", s.time));
                }
                if !end {
                    tried = true;
                }
            } else {
                if dt > h + tol && run::hooked() {
                    return Err(format!("{ph}: a step of {dt} s with a step size of {h} s, at time {}", prev.time));
                }
                if dt < h - tol {
                    // Only to hit the target
                    if !tried && run::tells_discarded() {
                        return Err(format!("{ph}: a step of {dt} s with a step size of {h} s, at time {}, though the target was not passed", prev.time));
                    }
                    shortened = true;
                }
                ctx.count("steps judged");
                ctx.seen(mix(&[s.time.to_bits(), dt.to_bits(), w.i as u64]));
            }
            prev = *s;
        }
        if shortened {
            ctx.count("phases with shortened steps");
        }
        ctx.count("phases judged");
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

/// The same mission, with all parameters in effect written out in every phase.
fn restated(m: &Mission, r: &mut Rng, custom: bool) -> Mission {
    let effs = m.effs();
    let mut out = m.clone();
    for (i, (p, e)) in out.phases.iter_mut().zip(&effs).enumerate() {
        let v = p.vehicle.get_or_insert_with(Default::default);
        v.area = Some(e.area);
        v.drag = Some(e.drag.clone());
        v.lift = Some(e.lift.clone());
        v.side = Some(e.side.clone());
        v.engines = Some(e.engines.clone());
        p.steering = Some([Some(e.steer[0]), Some(e.steer[1]), Some(e.steer[2])]);
        p.planet = Some(if custom { e.planet_cfg.as_custom() } else { e.planet_cfg.clone() });
        p.atmosphere = Some((Some(e.atm), Some(e.wind)));
        p.max_acc = Some(if e.max_acc.is_infinite() { -1. } else { e.max_acc });
        p.stepsize = Some(e.stepsize);
        p.end = Some(e.end);
        if i > 0 && p.init.is_none() && r.p(0.3) {
            p.init = m.phases[0].init.clone();
        }
    }
    out
}

/// Compares two runs of what should be the same mission. `rel` bounds the difference.
fn same_runs(a: &Trace, b: &Trace, rel: f64, spread: [f64; 3]) -> Result<(), String> {
    if a.out != b.out {
        return Err(format!("one ends with {:?}, the other with {:?}", a.out, b.out));
    }
    if a.phases.len() != b.phases.len() {
        return Err(format!("{} phases against {}", a.phases.len(), b.phases.len()));
    }
    for (i, (p, q)) in a.phases.iter().zip(&b.phases).enumerate() {
        let x = p.steps.last().map_or(&p.start, |s| &s.0);
        let y = q.steps.last().map_or(&q.start, |s| &s.0);
        for (n, s, t) in [("start", &p.start, &q.start), ("end", x, y)] {
            same_state(s, t, rel, spread).map_err(|e| format!("phase {} {n}: {e}", i + 1))?;
        }
    }
    Ok(())
}

fn same_state(s: &S, t: &S, rel: f64, spread: [f64; 3]) -> Result<(), String> {
    let v = norm(s.vel).max(100.);
    let c = |n: &str, d: f64, tol: f64| if d <= tol { Ok(()) } else { Err(format!("{n} differs by {d:e}")) };
    c("time", (s.time - t.time).abs(), rel * s.time.abs().max(1.) + spread[0])?;
    c("position", dist(s.pos, t.pos), rel * norm(s.pos) + spread[1])?;
    c("velocity", dist(s.vel, t.vel), rel * v * 10. + spread[2])?;
    c("mass", (s.mass - t.mass).abs(), rel * s.mass.abs())?;
    c("pressure", (s.pres - t.pres).abs(), rel * 1e4 * s.pres.abs())?;
    let a = norm(s.acc) + norm(s.veh_acc) + norm(s.grav);
    c("acceleration", dist(s.acc, t.acc), rel * 1e4 * a)?;
    let e = s.euler.iter().fold(1., |a: f64, x| a.max(x.abs()));
    c("attitude", dist(s.euler, t.euler), rel * 1e3 * e)?;
    Ok(())
}

fn c13(ctx: &mut Ctx) {
    let fo = FlightOpt {
        phases: (2, 10),
        churn: ctx.r.pick(&[0.15, 0.4, 0.8]),
        max_steps: 10,
        change_planet: 0.25,
        limit: 0.3,
        ..Default::default()
    };
    let fo = if ctx.case % 60 == 7 { gen::chain_opt(&mut ctx.r) } else { fo };
    let (m, run) = gen::flight(&mut ctx.r, &fo);
    let Some((a, text)) = ctx.run_expected(&m, run.steps) else { return };
    let rel = if run.limited() { 1e-6 } else { 1e-8 };
    // All parameters, as seen through everything that depends on them
    let ors: &[(&str, Oracle)] = &[
        ("gravity", o::gravity_at),
        ("atmosphere", o::air),
        ("kinematics", o::kinematics),
        ("attitude", o::attitude),
        ("aerodynamics", o::aero_at),
        ("thrust", o::thrust_at),
        ("throttle", o::throttle_at),
        ("propellant", o::propellant),
        ("equation of motion", o::motion),
    ];
    for w in walks(&m, &a) {
        let s = &w.ph.start;
        for s in [s, w.last()] {
            for (n, f) in ors {
                if let Err(e) = f(&w.env, s) {
                    ctx.fail(format!("phase {}: the parameters in effect are not the configured or inherited ones: {n}: {e}", w.i + 1), &text);
                    return;
                }
            }
        }
        let (v, t) = w.env.eff.end;
        if (vget(v, w.last()) - t).abs() > 1e-3 * (1. + 1e-9) {
            ctx.fail(format!("phase {}: ended with {} = {:e} instead of {t:e}", w.i + 1, vname(v), vget(v, w.last())), &text);
            return;
        }
        let (pp, pm) = w.prev.map_or((0., 0.), |s| (s.prop, s.mass));
        let want = start_mass(w.cfg, &w.env.eff, pp, pm);
        if (s.mass - want).abs() > 1e-12 * want.abs() {
            ctx.fail(format!("phase {}: starts with a mass of {:e} instead of {want:e}", w.i + 1, s.mass), &text);
            return;
        }
        for (x, y, _) in w.single_steps().iter().take(2) {
            let h = y.time - x.time;
            if (h - w.env.eff.stepsize).abs() < 1e-9 * (1. + y.time) {
                ctx.count("step sizes judged");
                if let Err(e) = o::step(&w.env, x, y) {
                    ctx.fail(format!("phase {}: {e}", w.i + 1), &text);
                    return;
                }
            } else if h > w.env.eff.stepsize && run::hooked() {
                ctx.fail(format!("phase {}: a step of {h} s with a step size of {} s", w.i + 1, w.env.eff.stepsize), &text);
                return;
            }
        }
        ctx.count("phases judged");
        ctx.seen(mix(&[w.i as u64, s.hash()]));
    }
    // Written out, or written differently, the mission is the same
    let custom = ctx.r.p(0.3);
    let full = restated(&m, &mut ctx.r, custom);
    for (what, mm) in [("with all parameters restated in each phase", &full), ("in another notation", &m)] {
        let (b, text2) = ctx.run(mm, 4 * run.steps + 200);
        ctx.count("pairs of runs compared");
        if let Err(e) = same_runs(&a, &b, rel, run.spread()) {
            ctx.fail(format!("the same mission {what} behaves differently: {e}"), &format!("{text}\n--- against ---\n{text2}"));
            return;
        }
    }
    ctx.sample(|| text.chars().take(1500).collect());
}

// ---------------------------------------------------------------- C15

fn c15(ctx: &mut Ctx) {
    let r = &mut ctx.r;
    let i = gen::init(r);
    let pl = if r.p(0.1) { None } else { Some(gen::planet(r)) };
    let (st, pr) = (r.log(1e-2, 1e6), if r.p(0.2) { 0. } else { r.log(1e-2, 1e7) });
    let mut p = PhaseCfg {
        init: Some(i.clone()),
        planet: pl,
        vehicle: Some(VehicleCfg { structure: Some(st), propellant: if pr == 0. && r.p(0.5) { None } else { Some(pr) }, ..Default::default() }),
        ..Default::default()
    };
    // None of these changes where the vehicle starts
    if r.p(0.4) {
        p.atmosphere = Some((Some(r.p(0.5)), Some(gen::wind(r, 100.))));
    }
    if r.p(0.5) {
        let c: [f64; 3] = [r.range(-90., 90.), r.range(-90., 90.), r.range(-90., 90.)];
        let y = var("position_norm");
        let s = Carry::new().start(&p, true).1;
        let n = norm(s.pos);
        p.steering = Some([Some((y, [c[0] / n, 0., 0.])), Some((y, [0., c[1] / n / n, 0.])), Some((y, [0., 0., c[2] / n / n / n]))]);
    }
    if r.p(0.4) {
        p.stepsize = Some(r.log(1e-3, 10.));
    }
    // Thrust makes the launch frame visible
    let s = Carry::new().start(&p, true).1;
    let total = s.mass * norm(s.grav).max(1.) * r.range(0.5, 3.);
    p.vehicle.as_mut().unwrap().engines = Some(gen::engines(r, total, 0.3));
    p.end = Some((var("time_since_event"), 0.));
    let mut m = Mission { phases: vec![p] };
    if r.p(0.3) {
        // A later init has no effect
        let q = PhaseCfg { init: Some(gen::init(r)), planet: if r.p(0.5) { Some(gen::planet(r)) } else { None }, ..Default::default() };
        m.phases.push(q);
    }
    let Some((t, text)) = ctx.run_expected(&m, 20) else { return };
    let q = m.effs()[0].planet.clone();
    let mut bad = |e: String| ctx.fail(e, &text);
    let s = &t.phases[0].start;
    let r = norm(s.pos);
    let tol = 1e-13;
    // The surface point below: along the radius, on the ellipsoid
    let up = scale(s.pos, 1. / r);
    let ground = scale(up, surface_radius(&q, up[2]));
    let alt = r - norm(ground);
    if (alt - i.alt).abs() > tol * r * 10. {
        return bad(format!("starts {alt} m above the surface, should be {}", i.alt));
    }
    if (s.alt - i.alt).abs() > 1e-12 * r {
        return bad(format!("starts with an altitude of {}, should be {}", s.alt, i.alt));
    }
    // Its normal has the geodetic latitude
    let nx = ground[0].hypot(ground[1]) / (q.re * q.re);
    let nz = ground[2] / (q.rp * q.rp);
    let lat = nz.atan2(nx).to_degrees();
    if (lat - i.lat).abs() > 1e-11 * (q.re / q.rp).powi(2).max((q.rp / q.re).powi(2)) {
        return bad(format!("starts at the geodetic latitude {lat}°, should be {}°", i.lat));
    }
    let long = i.long.to_radians();
    let want = [long.cos(), long.sin()];
    let rho = up[0].hypot(up[1]);
    if rho > 1e-9 {
        let d = (up[0] / rho - want[0]).hypot(up[1] / rho - want[1]);
        if d > 1e-13 * (10. + long.abs()) / rho.min(1.) {
            return bad(format!("starts at the longitude {}°, should be {}°", s.pos[1].atan2(s.pos[0]).to_degrees(), i.long));
        }
    }
    // At rest on the planet
    let w = [-q.rate * s.pos[1], q.rate * s.pos[0], 0.];
    if dist(w, s.vel) > 1e-14 * norm(w) {
        return bad(format!("starts with velocity {:?}, should be {w:?}", s.vel));
    }
    if norm(s.vel_planet) > 1e-14 * norm(w) {
        return bad(format!("starts with a velocity of {:?} relative to the planet", s.vel_planet));
    }
    if s.time != 0. || s.tse != 0. {
        return bad(format!("starts at time {}, {} s after the event", s.time, s.tse));
    }
    if (s.mass - st - pr).abs() > 1e-14 * s.mass || (s.prop - pr).abs() > 1e-14 * s.mass {
        return bad(format!("starts with a mass of {} and a propellant mass of {}, should be {} and {pr}", s.mass, s.prop, st + pr));
    }
    let l = t.last.unwrap();
    if l.pos != s.pos || l.time != 0. {
        return bad("moves in a phase of no duration".into());
    }
    // The launch frame, as seen through the direction of thrust (vertical at first)
    for w in walks(&m, &t) {
        if let Err(e) = o::motion(&w.env, &w.ph.start) {
            return bad(format!("launch frame: {e}"));
        }
        if let Err(e) = o::attitude(&w.env, &w.ph.start) {
            return bad(format!("initial attitude: {e}"));
        }
    }
    ctx.count("initial states judged");
    ctx.seen(mix(&[i.lat.to_bits(), i.long.to_bits(), i.alt.to_bits(), q.re.to_bits(), q.rp.to_bits()]));
    ctx.sample(|| text.chars().take(1500).collect());
}

// ---------------------------------------------------------------- C16

fn c16(ctx: &mut Ctx) {
    let or: &[(&str, Oracle)] = &[("kinematics", o::kinematics)];
    match ctx.case % 5 {
        0 => flights(ctx, &FlightOpt { change_planet: 0.3, limit: 0.1, ..Default::default() }, or),
        1 => {
            let (m, period) = orbit_mission(&mut ctx.r, false);
            let n = ctx.r.int(20, 120);
            let m = with_end(&m, period * ctx.r.log(1e-3, 0.05), n);
            let run = crate::model::run(&m, 300);
            if run.end == End::Done && !run.ill() {
                judge_states(ctx, &m, n, or);
            }
        }
        2 => probes(ctx, &ProbeOpt { phases: (2, 5), limit: 0., max_nodes: 2, steps: 6, ..gen::PROBE }, or),
        _ => probes(ctx, &ProbeOpt { phases: (1, 4), limit: 0., max_nodes: 2, ..gen::PROBE }, or),
    }
}

// ---------------------------------------------------------------- C17

fn c17(ctx: &mut Ctx) {
    let n = 4;
    let mut ms = vec![];
    let fo = if ctx.small {
        FlightOpt { phases: (1, 3), max_steps: 6, change_planet: 0.3, ..Default::default() }
    } else {
        FlightOpt { phases: (1, 6), max_steps: 30, change_planet: 0.3, ..Default::default() }
    };
    for k in 0..n {
        let m = match k {
            // Close relatives, so that state leaking between them shows
            1 | 2 => {
                let (m, _): &(Mission, MRun) = &ms[0];
                let mut m = m.clone();
                let r = &mut ctx.r;
                if r.p(0.3) {
                    if let Some(i) = &mut m.phases[0].init {
                        match r.below(3) {
                            0 => i.alt += r.log(1., 1e4),
                            1 => i.lat = gen::latitude(r),
                            _ => i.az += r.range(-180., 180.),
                        }
                    }
                }
                if k == 1 && r.p(0.3) {
                    m.phases[0].planet = Some(gen::planet(r));
                } else {
                    let effs = m.effs();
                    let i = if r.p(0.6) { 0 } else { r.below(effs.len()) };
                    gen::echo(r, &mut m.phases[i], &effs[i]);
                }
                let run = crate::model::run(&m, 500);
                if !run::hooked() && (run.end != End::Done || run.ill()) {
                    // Nothing would stop it
                    gen::flight(&mut ctx.r, &fo)
                } else {
                    (m, run)
                }
            }
            _ => gen::flight(&mut ctx.r, &fo),
        };
        ms.push(m);
    }
    let texts: Vec<String> = ms.iter().map(|m| { let st = random_style(&mut ctx.r); m.0.json(&st, &mut ctx.r) }).collect();
    // The relatives may fly on and on
    let budget = |k: usize| if ms[k].1.end == End::Done { 4 * ms[k].1.steps + 100 } else { 200 };
    let go = |sc: &run::Scratch, k: usize, text: &str| run::run_text(sc, text, budget(k), false);
    // Each alone, in a thread of its own
    let first: Vec<Trace> = (0..n)
        .map(|k| {
            let (dir, text, go) = (&ctx.sc.dir, &texts[k], &go);
            std::thread::scope(|sc| sc.spawn(move || go(&run::Scratch::new(dir), k, text)).join().unwrap())
        })
        .collect();
    ctx.runs += n as u64;
    let compare = |ctx: &mut Ctx, what: &str, k: usize, t: &Trace| -> bool {
        ctx.count(what);
        if t.out != first[k].out || t.bits() != first[k].bits() {
            let at = t
                .phases
                .iter()
                .flat_map(|p| p.steps.iter())
                .zip(first[k].phases.iter().flat_map(|p| p.steps.iter()))
                .find(|(a, b)| a.0.bits() != b.0.bits())
                .map_or("end".to_string(), |(a, _)| format!("time {}", a.0.time));
            ctx.fail(
                format!("the same configuration gave another result ({what}): {:?} against {:?}, first difference at {at}", t.out, first[k].out),
                &texts.join("\n--- other missions of the same process ---\n"),
            );
            return false;
        }
        true
    };
    // Again in another order, and the same object twice
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    ctx.r.shuffle(&mut order);
    for k in order {
        let t = go(&ctx.sc, k, &texts[k]);
        ctx.runs += 1;
        if !compare(ctx, "repeated in another order", k, &t) {
            return;
        }
    }
    let k = ctx.r.below(n);
    let p = ctx.sc.write(texts[k].as_bytes());
    if let Ok(sim) = run::load(&p) {
        for _ in 0..2 {
            let t = run::run_sim(&sim, budget(k), false);
            ctx.runs += 1;
            if !compare(ctx, "run again from the same object", k, &t) {
                return;
            }
        }
        #[allow(unused_imports)]
        use run::NotShareable;
        for t in run::Shared(&sim).in_threads(4, budget(k)) {
            ctx.runs += 1;
            if !compare(ctx, "run at the same time from the same object", k, &t) {
                return;
            }
        }
    }
    // All loaded before any is run, from files which are gone by then
    let same = ctx.r.p(0.5);
    let sims: Vec<_> = (0..n)
        .map(|k| {
            let p = if same { ctx.sc.dir.join("mission.json") } else { ctx.sc.dir.join(format!("mission {k}.json")) };
            std::fs::write(&p, &texts[k]).ok();
            let s = run::load(&p);
            if !same && ctx.r.p(0.5) {
                std::fs::remove_file(&p).ok();
            }
            s.ok()
        })
        .collect();
    let mut order: Vec<usize> = (0..n).collect();
    ctx.r.shuffle(&mut order);
    for k in order {
        if let Some(sim) = &sims[k] {
            let t = run::run_sim(sim, budget(k), false);
            ctx.runs += 1;
            if !compare(ctx, "run after others were loaded", k, &t) {
                return;
            }
        }
    }
    // At the same time, in threads
    let dir = ctx.sc.dir.clone();
    let barrier = std::sync::Barrier::new(n);
    let jobs: Vec<usize> = (0..n).map(|i| if ctx.case % 3 == 0 { i % 2 } else { i }).collect();
    let results: Vec<Vec<(usize, Trace)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|&k| {
                let (dir, barrier, texts) = (dir.clone(), &barrier, &texts);
                let go = &go;
                sc.spawn(move || {
                    let s = run::Scratch::new(&dir);
                    barrier.wait();
                    (0..2).map(|j| { let k = (k + j) % n; (k, go(&s, k, &texts[k])) }).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, t) in results.into_iter().flatten() {
        ctx.runs += 1;
        if !compare(ctx, "run at the same time in another thread", k, &t) {
            return;
        }
    }
    // In a process of its own
    if ctx.case % 4 == 0 && !ctx.small {
        let k = ctx.r.below(n);
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        let p = if ctx.r.p(0.5) {
            ctx.sc.write(texts[k].as_bytes())
        } else {
            // Another name, from another directory
            let d = ctx.sc.dir.join("elsewhere");
            std::fs::create_dir_all(&d).ok();
            std::fs::write(d.join("..mission 2.txt"), &texts[k]).ok();
            c.current_dir(&d);
            ctx.r.pick(&["..mission 2.txt", "./..mission 2.txt", "../elsewhere//..mission 2.txt"]).into()
        };
        run::surroundings(&mut c, &mut ctx.r);
        let out = c.arg("solo").arg(&p).arg(budget(k).to_string()).arg(if run::hooked() { "hooked" } else { "blind" }).output();
        if let Ok(o) = out {
            let err = String::from_utf8_lossy(&o.stderr);
            if let Some(h) = err.lines().find_map(|l| l.strip_prefix("solo-hash ")) {
                ctx.runs += 1;
                ctx.count("run in a fresh process");
                if h != mix(&first[k].bits()).to_string() {
                    ctx.fail(
                        "the same configuration gave another result in a fresh process".into(),
                        &format!("{}\n--- missions run before in the process ---\n{}", texts[k], texts.join("\n")),
                    );
                    return;
                }
            }
        }
    }
    for t in &first {
        if t.out == Out::Done {
            ctx.add("steps observed", t.steps() as u64);
            ctx.seen(mix(&t.last.map(|s| s.bits()).unwrap_or_default()));
        }
    }
    ctx.sample(|| texts[0].chars().take(1500).collect());
}

// ---------------------------------------------------------------- C19

fn c19(ctx: &mut Ctx) {
    let nv = VARS.len();
    let k = ctx.case as usize;
    let v = k % nv;
    match (k / nv) % 4 {
        0 | 1 => as_end_criterion(ctx, v),
        2 => as_steering(ctx, v),
        _ => as_table(ctx, v),
    }
}

fn as_end_criterion(ctx: &mut Ctx, v: Var) {
    // A flight whose only event is on this variable
    let fo = FlightOpt {
        phases: (1, 3),
        end_vars: vec![v],
        max_steps: 12,
        churn: 0.2,
        atm: 0.9,
        thrust: 1.,
        tables: 0.2,
        limit: if vname(v) == "throttle" { 0.9 } else { 0.2 },
        ..Default::default()
    };
    for _ in 0..6 {
        let (m, run) = gen::flight(&mut ctx.r, &fo);
        if !m.phases.iter().any(|p| p.end.map_or(false, |e| e.0 == v)) {
            continue;
        }
        let Some((t, text)) = ctx.run_expected(&m, run.steps) else { return };
        for w in walks(&m, &t) {
            let (x, target) = w.env.eff.end;
            let last = w.last();
            let got = vget(x, last);
            if !((got - target).abs() < 1e-3 + 1e-12 * target.abs()) {
                ctx.fail(format!("phase {} should end when {} is {target:e}, but it is {got:e} then", w.i + 1, vname(x)), &text);
                return;
            }
            // and not another time
            let ml = run.phases[w.i].steps.last().unwrap();
            if (last.tse - ml.tse).abs() > w.env.eff.stepsize * 1.001 {
                ctx.fail(format!("phase {} should end {} s after its start when {} is {target:e}, but ended after {} s", w.i + 1, ml.tse, vname(x), last.tse), &text);
                return;
            }
            if x == v {
                ctx.count(&format!("end criterion {}", vname(v)));
                ctx.seen(mix(&[v as u64, target.to_bits(), 1]));
            }
        }
        return;
    }
}

/// A flight of one phase in air, with everything moving.
fn busy(r: &mut Rng) -> Option<(Mission, MRun)> {
    let fo = FlightOpt { phases: (1, 2), atm: 1., thrust: 1., launch: 0.5, limit: 0., churn: 0.1, max_steps: 8, tables: 0., end_vars: vec![var("time_since_event")], ..Default::default() };
    let (m, run) = gen::flight(r, &fo);
    Some((m, run))
}

fn as_steering(ctx: &mut Ctx, v: Var) {
    if VARS[v].avail != Avail::Steering {
        return as_end_criterion(ctx, v);
    }
    for _ in 0..10 {
        let Some((mut m, run)) = busy(&mut ctx.r) else { continue };
        let r = &mut ctx.r;
        let n = run.phases.len();
        let s = run.phases[n - 1].start;
        let y = vget(v, &s).abs().max(gen::width(v) * 0.1);
        let k = r.below(3);
        let mut st = [Some((0, [0.; 3])), Some((0, [0.; 3])), Some((0, [0.; 3]))];
        let c = r.range(5., 40.) * r.sign() / y;
        st[k] = Some((v, match r.below(3) {
            0 => [c, 0., 0.],
            1 => [0., c / y, 0.],
            _ => [c, c / y, c / y / y],
        }));
        m.phases[n - 1].steering = Some(st);
        let run = crate::model::run(&m, 300);
        if run.end != End::Done || run.ill() {
            continue;
        }
        if judge_states(ctx, &m, run.steps, &[("attitude", o::attitude)]).is_some() {
            ctx.count(&format!("steering by {}", vname(v)));
        }
        return;
    }
    ctx.count("no steering mission found");
}

fn as_table(ctx: &mut Ctx, v: Var) {
    if VARS[v].avail == Avail::End {
        return as_end_criterion(ctx, v);
    }
    for _ in 0..10 {
        let Some((mut m, run)) = busy(&mut ctx.r) else { continue };
        let r = &mut ctx.r;
        let n = run.phases.len();
        let s = run.phases[n - 1].start;
        let y = vget(v, &s);
        let w = gen::width(v).max(y.abs() * 0.3);
        let other = r.pick(&table_vars());
        let z = vget(other, &s);
        if !y.is_finite() || !z.is_finite() {
            continue;
        }
        let ax = (v, vec![y - w, y + w]);
        let wz = gen::width(other).max(z.abs() * 0.3);
        let az = (other, vec![z - wz, z + wz]);
        let t = match r.below(4) {
            0 => Table { axes: vec![ax, az], data: vec![0.1, 0.2, 0.7, 0.4], interp: false },
            1 => Table { axes: vec![az, ax], data: vec![0.1, 0.8, 0.2, 0.4], interp: false },
            2 => Table { axes: vec![(0, vec![0.]), az, ax], data: vec![0.1, 0.8, 0.2, 0.4], interp: false },
            _ => Table { axes: vec![ax], data: vec![0.1, 0.8], interp: true },
        };
        let vc = m.phases[n - 1].vehicle.get_or_insert_with(Default::default);
        vc.area = Some(s.mass / 1e4 + 1.);
        match r.below(3) {
            0 => vc.drag = Some(t),
            1 => vc.lift = Some(t),
            _ => vc.side = Some(t),
        }
        let run = crate::model::run(&m, 300);
        if run.end != End::Done || run.ill() {
            continue;
        }
        if judge_states(ctx, &m, run.steps, &[("coefficient", o::aero_at)]).is_some() {
            ctx.count(&format!("table over {}", vname(v)));
        }
        return;
    }
    ctx.count("no table mission found");
}

// ---------------------------------------------------------------- C20

fn c20(ctx: &mut Ctx) {
    match ctx.case % 6 {
        0 => conservation(ctx),
        1 => split(ctx),
        2 => rotated(ctx),
        3 => mirrored(ctx),
        4 => scaled(ctx),
        _ => spun_axes(ctx),
    }
}

/// Energy and angular momentum of a coasting vehicle.
fn conservation(ctx: &mut Ctx) {
    let pure = ctx.r.p(0.3);
    let (m, period) = orbit_mission(&mut ctx.r, pure);
    let n = ctx.r.int(30, 300);
    let m = with_end(&m, period / 2000. * ctx.r.range(0.3, 1.), n);
    let Some((t, text)) = ctx.run_expected(&m, n) else { return };
    let p = m.effs()[0].planet.clone();
    let potential = |s: &S| {
        let r = norm(s.pos);
        let z = s.pos[2] / r;
        let leg = [1.5 * z * z - 0.5, 2.5 * z.powi(3) - 1.5 * z, (35. * z.powi(4) - 30. * z * z + 3.) / 8.];
        let mut u = 1.;
        for (i, l) in leg.iter().enumerate() {
            u -= p.j[i] * (p.re / r).powi(i as i32 + 2) * l;
        }
        -p.mu / r * u
    };
    let energy = |s: &S| 0.5 * dot(s.vel, s.vel) + potential(s);
    let lz = |s: &S| cross(s.pos, s.vel)[2];
    let s0 = t.phases[0].start;
    let (e0, l0) = (energy(&s0), lz(&s0));
    for (s, _) in &t.phases[0].steps {
        let de = (energy(s) - e0).abs() / (0.5 * dot(s0.vel, s0.vel) + p.mu / norm(s0.pos));
        let dl = (lz(s) - l0).abs() / (norm(s0.pos) * norm(s0.vel));
        // RK4 with 2000 steps per revolution
        if de > 1e-9 || dl > 1e-9 {
            ctx.fail(format!("coasting at time {}: energy changed by {de:e} and angular momentum by {dl:e} (relative)", s.time), &text);
            return;
        }
        if s.mass != s0.mass {
            ctx.fail(format!("mass changes while coasting, from {} to {}", s0.mass, s.mass), &text);
            return;
        }
        ctx.count("coasting states judged");
        ctx.seen(mix(&[s.pos[0].to_bits(), s.time.to_bits()]));
    }
    ctx.sample(|| text.chars().take(1500).collect());
}

/// A base mission for comparisons: ends by time only.
fn timed(r: &mut Rng) -> Option<(Mission, MRun)> {
    let fo = FlightOpt {
        phases: (1, 4),
        limit: 0.2,
        churn: 0.3,
        max_steps: 25,
        end_vars: vec![var("time_since_event"), var("altitude"), var("mass"), var("position_norm"), var("time")],
        stepsize: (0.1, 4.),
        steer: 20.,
        ..Default::default()
    };
    let (m, run) = gen::flight(r, &fo);
    Some((m, run))
}

fn compare_pair(ctx: &mut Ctx, what: &str, m: &Mission, run: &MRun, other: &Mission, map: &dyn Fn(&S) -> S, scale: f64) {
    let ro = crate::model::run(other, 4 * run.steps + 400);
    if ro.end != End::Done || ro.ill() || run.ill() {
        ctx.count("not comparable");
        return;
    }
    // How much the model itself differs: sensitivity to rounding
    let rel = if run.limited() { 3e-6 } else { 1e-8 } * scale;
    let (p, q) = (run.spread(), ro.spread());
    let spread = [p[0].max(q[0]), p[1].max(q[1]), p[2].max(q[2])];
    let pair = |a: &S, b: &S| same_state(&map(a), b, rel, spread);
    let ends = |r: &MRun| r.phases.last().map(|p| *p.steps.last().unwrap()).unwrap();
    if same_state(&map(&ends(run)), &ends(&ro), rel * 0.03, spread).is_err() {
        ctx.count("not comparable");
        return;
    }
    let Some((a, t1)) = ctx.run_expected(m, run.steps) else { return };
    let Some((b, t2)) = ctx.run_expected(other, ro.steps) else { return };
    let x = a.last.unwrap();
    let y = b.last.unwrap();
    ctx.count(what);
    ctx.seen(mix(&[x.hash()]));
    if let Err(e) = pair(&x, &y) {
        ctx.fail(format!("{what}: {e}"), &format!("{t1}\n--- against ---\n{t2}"));
    }
    ctx.sample(|| t1.chars().take(1500).collect());
}

/// Splitting a phase into two changes nothing.
fn split(ctx: &mut Ctx) {
    let Some((mut m, _)) = timed(&mut ctx.r) else { return };
    let r = &mut ctx.r;
    let i = r.below(m.phases.len());
    // A phase of whole steps, steered linearly with time
    let h = m.effs()[i].stepsize;
    let tse = var("time_since_event");
    let n = r.int(2, 12);
    let k = r.int(1, n - 1);
    m.phases.truncate(i + 1);
    let mut st = [None; 3];
    for s in st.iter_mut() {
        *s = Some((tse, [r.range(-1., 1.), 0., 0.]));
    }
    m.phases[i].steering = Some(st);
    m.phases[i].end = Some((tse, h * n as f64));
    let run = crate::model::run(&m, 3000);
    if run.end != End::Done || run.ill() || run.limited() && ctx.case % 2 == 0 {
        return;
    }
    // Tables over the time since the event would see the difference
    let e = &m.effs()[i];
    for t in [&e.drag, &e.lift, &e.side] {
        if t.axes.iter().any(|a| a.0 == tse) {
            return;
        }
    }
    let mut other = m.clone();
    other.phases[i].end = Some((tse, h * k as f64));
    other.phases.push(PhaseCfg { end: Some((tse, h * (n - k) as f64)), ..Default::default() });
    let tse0 = |s: &S| S { tse: 0., ..*s };
    compare_pair(ctx, "phase split in two", &m, &run, &other, &tse0, 1.);
}

fn rotz(v: V3, a: f64) -> V3 {
    let (s, c) = a.sin_cos();
    [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]
}

/// Variables which a rotation of everything around the planet's axis does not change.
fn rotation_free(m: &Mission, ok: &dyn Fn(Var) -> bool) -> bool {
    let mut e = vec![];
    for p in &m.phases {
        e.extend(p.end.map(|x| x.0));
        if let Some(s) = &p.steering {
            e.extend(s.iter().flatten().map(|x| x.0));
        }
        if let Some(v) = &p.vehicle {
            for t in [&v.drag, &v.lift, &v.side].into_iter().flatten() {
                e.extend(t.axes.iter().map(|a| a.0));
            }
        }
    }
    e.into_iter().all(ok)
}

/// Replaces variables which are not allowed by ones which are.
fn restrict(m: &mut Mission, r: &mut Rng, ok: &dyn Fn(Var) -> bool, good: &[Var]) {
    for p in &mut m.phases {
        if let Some(s) = &mut p.steering {
            for a in s.iter_mut() {
                if a.map_or(false, |a| !ok(a.0)) {
                    *a = Some((var("time_since_event"), [r.range(-1., 1.), 0., 0.]));
                }
            }
        }
        if let Some(v) = &mut p.vehicle {
            for t in [&mut v.drag, &mut v.lift, &mut v.side].into_iter().flatten() {
                for a in t.axes.iter_mut() {
                    if !ok(a.0) {
                        a.0 = r.pick(good);
                        let n = a.1.len();
                        a.1 = (0..n).map(|i| i as f64 * gen::width(a.0)).collect();
                    }
                }
            }
        }
        if p.end.map_or(false, |e| !ok(e.0)) {
            p.end = Some((var("time_since_event"), 10.));
        }
    }
}

fn is_component(v: Var) -> bool {
    let n = vname(v);
    n.ends_with(|c: char| c.is_ascii_digit())
}

fn timed_restricted(ctx: &mut Ctx, ok: &dyn Fn(Var) -> bool) -> Option<(Mission, MRun)> {
    for _ in 0..4 {
        let (mut m, _) = timed(&mut ctx.r)?;
        let good: Vec<Var> = table_vars().into_iter().filter(|&v| ok(v)).collect();
        restrict(&mut m, &mut ctx.r, ok, &good);
        let run = crate::model::run(&m, 3000);
        if run.end == End::Done && !run.ill() && rotation_free(&m, ok) {
            return Some((m, run));
        }
    }
    ctx.count("no mission found");
    None
}

/// The same flight from another longitude.
fn rotated(ctx: &mut Ctx) {
    let ok = |v: Var| !is_component(v) || vname(v).contains("body") || vname(v).ends_with('3');
    let Some((m, run)) = timed_restricted(ctx, &ok) else { return };
    let a = ctx.r.range(-360., 360.);
    let mut other = m.clone();
    for p in &mut other.phases {
        if let Some(i) = &mut p.init {
            i.long += a;
        }
        if let Some((_, Some(w))) = &mut p.atmosphere {
            *w = rotz(*w, a.to_radians());
        }
    }
    let map = move |s: &S| {
        let mut t = *s;
        t.pos = rotz(s.pos, a.to_radians());
        t.vel = rotz(s.vel, a.to_radians());
        t.acc = rotz(s.acc, a.to_radians());
        t
    };
    compare_pair(ctx, "moved to another longitude", &m, &run, &other, &map, 1.);
}

/// The mirror image of a flight at the equatorial plane.
fn mirrored(ctx: &mut Ctx) {
    let ok = |v: Var| {
        let n = vname(v);
        if n.starts_with("euler") {
            return n.ends_with("pitch");
        }
        !(n.contains("body") && n.ends_with('2')) && !n.ends_with('3') || n.contains("body") && (n.ends_with('3') || n.ends_with('1'))
    };
    let Some((m, _)) = timed_restricted(ctx, &ok) else { return };
    // A planet whose harmonics we can mirror
    let mut base = m.clone();
    for p in &mut base.phases {
        if let Some(pl) = &p.planet {
            p.planet = Some(pl.as_custom());
        }
    }
    let run = crate::model::run(&base, 3000);
    if run.end != End::Done || run.ill() {
        return;
    }
    let mut other = base.clone();
    for p in &mut other.phases {
        if let Some(i) = &mut p.init {
            i.lat = -i.lat;
            i.az = 180. - i.az;
        }
        if let Some(Planet::Custom { g, .. }) = &mut p.planet {
            g[2] = -g[2];
        }
        if let Some((_, Some(w))) = &mut p.atmosphere {
            w[2] = -w[2];
        }
        if let Some(s) = &mut p.steering {
            for k in 0..2 {
                if let Some(a) = &mut s[k] {
                    for c in &mut a.1 {
                        *c = -*c;
                    }
                }
            }
        }
        if let Some(v) = &mut p.vehicle {
            if let Some(t) = &mut v.side {
                for x in &mut t.data {
                    *x = -*x;
                }
            }
            for e in v.engines.iter_mut().flatten() {
                e.incidence[1] = -e.incidence[1];
            }
        }
    }
    let map = |s: &S| {
        let mut t = *s;
        for v in [&mut t.pos, &mut t.vel, &mut t.acc] {
            v[2] = -v[2];
        }
        t.euler[0] = -t.euler[0];
        t.euler[1] = -t.euler[1];
        t
    };
    compare_pair(ctx, "mirrored at the equator", &base, &run, &other, &map, 1.);
}

/// A vehicle of twice the mass, thrust, mass flow and area flies the same way.
fn scaled(ctx: &mut Ctx) {
    let ok = |v: Var| !["mass", "propellant_mass", "massflow"].contains(&vname(v)) && !vname(v).contains("force");
    let Some((m, run)) = timed_restricted(ctx, &ok) else { return };
    let f = ctx.r.log(0.1, 20.);
    let mut other = m.clone();
    for p in &mut other.phases {
        if let Some(v) = &mut p.vehicle {
            for x in [&mut v.structure, &mut v.propellant, &mut v.area].into_iter().flatten() {
                *x *= f;
            }
            for e in v.engines.iter_mut().flatten() {
                e.thrust *= f;
                e.area *= f;
            }
        }
    }
    let map = move |s: &S| S { mass: s.mass * f, ..*s };
    compare_pair(ctx, "scaled vehicle", &m, &run, &other, &map, 1.);
}

/// Steering roll by a constant angle and turning the vehicle back changes nothing:
/// a pitched vehicle with a canted engine is one with a straight engine at another pitch.
fn spun_axes(ctx: &mut Ctx) {
    let r = &mut ctx.r;
    let (mut m, _) = orbit_mission(r, false);
    let p = &mut m.phases[0];
    let rr = p.init.as_ref().unwrap().alt + 6e6;
    let thrust = r.log(1e2, 1e5);
    let d = r.range(-170., 170.);
    let y0 = Carry::new().start(p, true).1;
    let yn = norm(y0.pos);
    let _ = rr;
    let isp = r.range(200., 400.);
    let n = r.int(1, 40);
    let h = r.pick(&[0.5, 1., 2.]);
    let burn = thrust / isp / G0 * h * n as f64;
    p.vehicle = Some(VehicleCfg {
        structure: Some(burn * r.range(0.3, 3.)),
        propellant: Some(burn * 1.1),
        engines: Some(vec![Engine { incidence: [0., 0.], thrust, isp, area: 0. }]),
        ..Default::default()
    });
    p.max_acc = None;
    p.atmosphere = None;
    // Straight engine, pitched by d at the start and turning; the pitch
    // axis coefficient is on the time, the offset comes from a first phase of no duration
    let rate = r.range(-2., 2.);
    let tse = var("time_since_event");
    let mut a = m.clone();
    a.phases[0].steering = Some([None, None, Some((var("position_norm"), [d / yn, 0., 0.]))]);
    a.phases[0].end = Some((tse, 0.));
    a.phases.push(PhaseCfg { steering: Some([None, None, Some((tse, [rate, 0., 0.]))]), stepsize: Some(h), end: Some((tse, h * n as f64)), ..Default::default() });
    // Canted engine
    let mut b = m.clone();
    b.phases[0].vehicle.as_mut().unwrap().engines.as_mut().unwrap()[0].incidence[0] = 0.;
    b.phases[0].steering = Some([None, None, Some((tse, [rate, 0., 0.]))]);
    b.phases[0].stepsize = Some(h);
    b.phases[0].end = Some((tse, h * n as f64));
    // Body z is +pitch direction: a positive pitch turns the nose towards -z... both signs are tried in the model
    for sign in [-1., 1.] {
        let mut b = b.clone();
        b.phases[0].vehicle.as_mut().unwrap().engines.as_mut().unwrap()[0].incidence[0] = (sign * d).to_radians();
        let ra = crate::model::run(&a, 500);
        let rb = crate::model::run(&b, 500);
        if ra.end != End::Done || rb.end != End::Done || ra.ill() || rb.ill() {
            return;
        }
        let (x, y) = (ra.last().unwrap(), rb.last().unwrap());
        if dist(x.pos, y.pos) < 1e-9 * norm(x.pos) && dist(x.vel, y.vel) < 1e-8 * norm(x.vel) {
            let e = ra.last().unwrap().euler;
            let map = move |s: &S| S { euler: [s.euler[0], s.euler[1], s.euler[2] - e[2]], ..*s };
            let e2 = y.euler;
            let map2 = move |s: &S| S { euler: add(map(s).euler, e2), ..map(s) };
            compare_pair(ctx, "canted engine against pitched vehicle", &a, &ra, &b, &map2, 10.);
            return;
        }
    }
}

// ---------------------------------------------------------------- C21

fn c21(ctx: &mut Ctx) {
    let fo = match ctx.case % 6 {
        0 => FlightOpt { phases: (6, 15), churn: 0.5, max_steps: 15, ..Default::default() },
        1 => FlightOpt { phases: (1, 2), max_steps: 300, stepsize: (0.05, 3.), ..Default::default() },
        2 => FlightOpt { limit: 0.8, churn: 0.6, ..Default::default() },
        3 => FlightOpt { tables: 1., atm: 1., churn: 0.6, steer: 200., ..Default::default() },
        4 => FlightOpt { thrust: 0.1, launch: 0.1, change_planet: 0.5, stepsize: (0.5, 40.), ..Default::default() },
        _ => FlightOpt::default(),
    };
    if ctx.case % 300 == 17 {
        let (m, run) = marathon(ctx);
        outcome(ctx, &m, &run);
        return;
    }
    if ctx.case % 60 == 43 {
        let (m, run) = voyage(ctx);
        outcome(ctx, &m, &run);
        return;
    }
    if ctx.case % 1200 == 31 {
        ctx.keep = false;
        ctx.count("missions of 1000 to 70000 phases");
        let (m, run) = gen::parade(&mut ctx.r);
        outcome(ctx, &m, &run);
        return;
    }
    let fo = if ctx.case % 60 == 13 { gen::chain_opt(&mut ctx.r) } else { fo };
    if ctx.case % 9 == 0 {
        let m = gen::probe(&mut ctx.r, &ProbeOpt { phases: (1, 12), max_nodes: 30, steps: 3, ..gen::PROBE });
        let run = crate::model::run(&m, 2000);
        if run.end != End::Done || run.ill() {
            return;
        }
        outcome(ctx, &m, &run);
        return;
    }
    let (m, run) = gen::flight(&mut ctx.r, &fo);
    outcome(ctx, &m, &run);
}

fn outcome(ctx: &mut Ctx, m: &Mission, run: &MRun) {
    let Some((t, text)) = ctx.run_expected(m, run.steps) else { return };
    for w in walks(m, &t) {
        let mut all: Vec<S> = w.ph.steps.iter().map(|s| s.0).collect();
        all.push(w.ph.start);
        for s in &all {
            for (i, x) in s.scalars().iter().enumerate() {
                // Without air there is no speed of sound
                let is_mach = i == 10;
                if !x.is_finite() && !(is_mach && !w.env.eff.atm) {
                    ctx.fail(format!("phase {}, time {}: the state is not finite: {s:?}", w.i + 1, s.time), &text);
                    return;
                }
            }
            ctx.count("states judged");
        }
    }
    // The trajectory is the one of the reference
    let rel = if run.limited() { 1e-5 } else { 1e-7 };
    for (i, (p, q)) in t.phases.iter().zip(&run.phases).enumerate() {
        let x = p.steps.last().map_or(&p.start, |s| &s.0);
        let y = q.steps.last().unwrap_or(&q.start);
        // The target may be hit a little earlier or later
        let slack = 1e-3 + 1e-6 * y.tse;
        let d = dist(x.pos, y.pos);
        let v = norm(y.vel) + 1.;
        if d > rel * norm(y.pos) + v * slack.max((x.time - y.time).abs()) || (x.time - y.time).abs() > q.env.eff.stepsize + 1. {
            ctx.fail(
                format!("phase {} ends at time {} and position {:?}, should be {} and {:?}", i + 1, x.time, x.pos, y.time, y.pos),
                &text,
            );
            return;
        }
        ctx.seen(mix(&[x.hash()]));
    }
    ctx.count("missions completed");
    ctx.sample(|| text.chars().take(1500).collect());
}

include!("checks_io.rs");

pub static CHECKS: &[Check] = &[
    Check { id: "C01", title: "equations of motion", case: c01, quick: 160_000, thorough: 1_000_000, min: 100_000,
        rule: "generated probe missions and flights run in the real code; each evaluation of the equations of motion, phase start and step is one observation; non-trivial if forces act; distinct by position, velocity, time, mass, dynamic pressure, throttle and phase" },
    Check { id: "C02", title: "integration", case: c02, quick: 48_000, thorough: 300_000, min: 50_000,
        rule: "each accepted integration step of generated flights, coasts and probes is compared with a reference Runge-Kutta step; coasts and burns with known solution are run with three step sizes and the order of convergence is measured; distinct by state after the step" },
    Check { id: "C03", title: "gravity", case: c03, quick: 160_000, thorough: 1_000_000, min: 100_000,
        rule: "each observed state of probes, orbits and flights around preset and random planets; distinct by state" },
    Check { id: "C04", title: "atmosphere", case: c04, quick: 240_000, thorough: 1_000_000, min: 100_000,
        rule: "each observed state in air, of probes placed in and at the bounds of all layers and of flights, plus pressure profiles against the weight of the air; distinct by state" },
    Check { id: "C05", title: "tables", case: c05, quick: 96_000, thorough: 600_000, min: 100_000,
        rule: "aerodynamic forces in each observed state of missions with generated tables of one to three dimensions; non-trivial if the force is not zero and well conditioned; distinct by state" },
    Check { id: "C06", title: "aerodynamics", case: c06, quick: 160_000, thorough: 800_000, min: 100_000,
        rule: "angle of attack and aerodynamic force in each observed state; non-trivial if not zero and not decided by rounding; distinct by state" },
    Check { id: "C07", title: "engines", case: c07, quick: 160_000, thorough: 800_000, min: 100_000,
        rule: "thrust and mass flow in each observed state of missions with up to 9 engines; non-trivial if there is an engine; distinct by state" },
    Check { id: "C08", title: "throttle", case: c08, quick: 160_000, thorough: 800_000, min: 50_000,
        rule: "throttle and sensed acceleration in each observed state; missions where the limit cannot be kept must abort; non-trivial if a limit is set; distinct by state" },
    Check { id: "C09", title: "mass", case: c09, quick: 40_000, thorough: 250_000, min: 50_000,
        rule: "mass at phase starts, used over each step and each phase of flights; non-trivial if propellant is used; distinct by time and mass" },
    Check { id: "C10", title: "steering", case: c10, quick: 64_000, thorough: 400_000, min: 50_000,
        rule: "Euler angles in each observed state against the polynomial, starting at the last attitude seen in the previous phase; non-trivial if a coefficient acts; distinct by state" },
    Check { id: "C11", title: "phase ends", case: c11, quick: 40_000, thorough: 250_000, min: 10_000,
        rule: "each phase of flights with targets on all variables; distinct by variable, target, end time and phase number" },
    Check { id: "C12", title: "time", case: c12, quick: 40_000, thorough: 250_000, min: 50_000,
        rule: "each step of flights with targets on all variables; distinct by time, step and phase number" },
    Check { id: "C13", title: "inheritance", case: c13, quick: 32_000, thorough: 200_000, min: 10_000,
        rule: "each phase of flights with randomly sparse configurations: all effects are compared with those of the inherited parameters, and the run with one where all is restated; distinct by first state of a phase" },
    Check { id: "C14", title: "configuration errors", case: c14, quick: 96_000, thorough: 600_000, min: 10_000,
        rule: "configurations made invalid by one defect, and their valid originals; distinct by text" },
    Check { id: "C15", title: "initial state", case: c15, quick: 320_000, thorough: 1_500_000, min: 50_000,
        rule: "first states of random sites, planets and vehicles; distinct by latitude, longitude, altitude and planet" },
    Check { id: "C16", title: "kinematics", case: c16, quick: 160_000, thorough: 800_000, min: 100_000,
        rule: "each observed state of probes, flights and long orbits; distinct by state" },
    Check { id: "C17", title: "determinism", case: c17, quick: 6_400, thorough: 40_000, min: 4_000,
        rule: "missions repeated in other orders, threads and processes, compared bit by bit over all states; distinct by final state" },
    Check { id: "C18", title: "output", case: c18, quick: 9_600, thorough: 40_000, min: 20_000,
        rule: "records printed by the binary against the states of the same mission observed in the library; distinct by record" },
    Check { id: "C19", title: "state variables", case: c19, quick: 80_000, thorough: 400_000, min: 20_000,
        rule: "each variable as end criterion, for steering and in tables; distinct by state or target" },
    Check { id: "C20", title: "invariances", case: c20, quick: 36_000, thorough: 250_000, min: 5_000,
        rule: "coasting states (energy, angular momentum), and pairs of missions which must fly the same; distinct by state" },
    Check { id: "C21", title: "outcome", case: c21, quick: 36_000, thorough: 250_000, min: 10_000,
        rule: "missions which reach all their targets: completion, finite states, and the trajectory of the reference; distinct by end state of a phase" },
];
