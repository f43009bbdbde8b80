//! Generators of missions.

use crate::model::*;
use crate::rng::Rng;

pub fn planet(r: &mut Rng) -> Planet {
    match r.below(10) {
        0 | 1 => Planet::Spherical,
        2 | 3 => Planet::Fisher,
        4 | 5 => Planet::Smithsonian,
        6 => r.pick(&[Planet::Spherical, Planet::Fisher, Planet::Smithsonian]).as_custom(),
        _ => custom_planet(r),
    }
}

pub fn custom_planet(r: &mut Rng) -> Planet {
    let re = r.pick(&[6.378e6, 6.4e6, 1.737e6, 3.39e6, 7.1e7, 5e5]) * r.range(0.9, 1.1);
    let rp = match r.below(5) {
        0 => re,
        1 => re * (1. - r.log(1e-4, 0.1)),
        2 => re * (1. + r.log(1e-4, 0.05)),
        3 => re * r.range(0.5, 0.99),
        _ => re * (1. - 1. / 298.3),
    };
    let g0 = r.range(0.5, 25.);
    let mut j = |big: f64| match r.below(4) {
        0 => 0.,
        1 => r.sign() * r.log(1e-8, 1e-5),
        2 => r.sign() * r.log(1e-5, 3e-3),
        _ => r.sign() * r.log(1e-3, big),
    };
    let g = [g0 * re * re, j(0.03), j(0.02), j(0.02)];
    let rate = match r.below(6) {
        0 => 0.,
        1 => -r.log(1e-6, 2e-4),
        2 => r.log(2e-4, 1e-3),
        _ => r.log(1e-6, 2e-4),
    };
    let t = r.p(0.3);
    let mut tidy = |x: f64| if t { r.tidy(x) } else { x };
    let (re, rp, rate) = (tidy(re), tidy(rp), tidy(rate));
    Planet::Custom { re, rp, g, rate }
}

pub fn latitude(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.,
        1 => 90.,
        2 => -90.,
        3 => r.pick(&[45., -45., 28.5, -28.5, 5.2, -1e-9, 1e-6, 89.999999, -89.999, 60., 30.]),
        _ => {
            let x = r.range(-90., 90.);
            if r.p(0.3) {
                r.tidy(x).clamp(-90., 90.)
            } else {
                x
            }
        }
    }
}

pub fn init(r: &mut Rng) -> Init {
    let long = match r.below(8) {
        0 => 0.,
        1 => r.pick(&[90., 180., -180., 270., 279.4, 360., -90., 359.999, 450., -720.]),
        2 => r.range(-720., 720.),
        _ => r.range(-180., 360.),
    };
    let az = match r.below(8) {
        0 => 90.,
        1 => r.pick(&[0., 180., 270., 45., -90., 360., 450., 135., 225., 315.]),
        _ => r.range(-360., 400.),
    };
    let alt = match r.below(9) {
        0 | 1 => 0.,
        // A depression, or a silo
        8 => -r.log(1e-2, 4e3),
        2 => r.log(1e-3, 1e2),
        3 => r.log(1e2, 1e4),
        4 => r.log(1e4, 1e5),
        5 => r.log(1e5, 7e5),
        6 => r.log(7e5, 5e7),
        _ => r.range(0., 1e5),
    };
    Init { lat: latitude(r), long, az, alt }
}

pub fn wind(r: &mut Rng, max: f64) -> V3 {
    let m = match r.below(5) {
        0 => return [0.; 3],
        1 => max,
        2 => max * 0.1,
        _ => r.log(max * 1e-3, max),
    };
    let mut w = [r.range(-m, m), r.range(-m, m), r.range(-m, m)];
    if r.p(0.4) {
        // Some components only
        for x in w.iter_mut() {
            if r.p(0.5) {
                *x = 0.;
            }
        }
    }
    w
}

/// Axis nodes around a value: inside, at a node, or outside.
pub fn nodes(r: &mut Rng, x: f64, n: usize, default_width: f64) -> Vec<f64> {
    let x = if x.is_finite() { x } else { 1. };
    let w = match r.below(3) {
        0 => default_width.max(x.abs() * 0.3),
        1 => default_width.max(x.abs() * 1.2),
        _ => default_width.max(x.abs() * 0.02),
    };
    let (lo, hi) = match r.below(10) {
        0 => (x + 0.1 * w, x + w),
        1 => (x - w, x - 0.1 * w),
        2 => (x, x + w),
        3 => (x - w, x),
        _ => (x - w * r.range(0.05, 1.), x + w * r.range(0.05, 1.)),
    };
    let mut v: Vec<f64> = (0..n)
        .map(|i| {
            let f = if r.p(0.1) { 0.5 } else { r.range(0.2, 0.8) };
            lo + (hi - lo) * (i as f64 + f - 0.5) / (n as f64 - 0.5).max(0.5)
        })
        .collect();
    if r.p(0.25) {
        let i = r.below(n);
        v[i] = x;
    }
    if r.p(0.3) {
        for y in v.iter_mut() {
            *y = r.tidy(*y);
        }
    }
    v.sort_by(f64::total_cmp);
    let eps = 1e-6 * w;
    let mut out: Vec<f64> = vec![];
    for y in v {
        if out.last().map_or(true, |l| y - l > eps) {
            out.push(y + 0.);
        }
    }
    out
}

pub fn width(v: Var) -> f64 {
    let n = vname(v);
    if n.starts_with("position") || n.starts_with("altitude") {
        1e4
    } else if n.starts_with("velocity") {
        100.
    } else if n.starts_with("time") {
        50.
    } else if n.contains("mass") {
        1e4
    } else if n == "alpha" || n.starts_with("euler") {
        0.3
    } else if n == "mach_number" {
        1.
    } else if n == "temperature" {
        40.
    } else if n == "pressure" || n == "dynamic_pressure" {
        1e4
    } else if n == "density" {
        0.3
    } else if n.starts_with("gravity") {
        2.
    } else {
        1.
    }
}

pub struct TableOpt {
    pub vars: Vec<Var>,
    pub max_nodes: usize,
    pub scale: f64,
}

pub fn table(r: &mut Rng, s: &S, o: &TableOpt) -> Table {
    match r.below(20) {
        0 => {
            let mut t = Table::empty();
            t.axes[0].0 = r.pick(&o.vars);
            return t;
        }
        1 => {
            let mut t = Table::constant(r.range(-1., 1.) * o.scale);
            t.axes[0] = (r.pick(&o.vars), vec![r.range(-10., 10.)]);
            return t;
        }
        _ => {}
    }
    let d = r.pick(&[1, 1, 2, 2, 3]);
    let mut axes = vec![];
    for _ in 0..d {
        // Now and then one of the variables before
        let v = if r.p(0.1) { axes.last().map_or(0, |a: &(Var, Vec<f64>)| a.0) } else { r.pick(&o.vars) };
        let n = match r.below(8) {
            0 => 1,
            1 | 2 => 2,
            3 => o.max_nodes,
            _ => r.int(2, o.max_nodes.min(12)),
        };
        let n = if d == 3 { n.min(14) } else { n };
        let others: usize = axes.iter().map(|a: &(Var, Vec<f64>)| a.1.len()).product();
        let n = n.min((20_000 / others).max(2));
        let twin = axes.last().filter(|a: &&(Var, Vec<f64>)| a.0 == v && r.p(0.5)).cloned();
        axes.push(twin.unwrap_or_else(|| (v, nodes(r, vget(v, s), n, width(v)))));
    }
    let total: usize = axes.iter().map(|a| a.1.len()).product();
    let smooth = r.p(0.3);
    let data = (0..total)
        .map(|i| {
            let x = if smooth { (i as f64 * 0.37).sin() } else { r.range(-1., 1.) };
            let x = x * o.scale + if r.p(0.1) { o.scale } else { 0. };
            if r.p(0.2) {
                r.tidy(x)
            } else {
                x
            }
        })
        .collect();
    let mut t = Table { axes, data, interp: r.p(0.3) };
    if r.p(0.25) {
        regular(r, &mut t);
    }
    t
}

/// Makes parts of a table alike: neighbouring rows are the same, or nearly so.
fn regular(r: &mut Rng, t: &mut Table) {
    let ns: Vec<usize> = t.axes.iter().map(|a| a.1.len()).collect();
    let k = r.below(ns.len());
    let block: usize = ns[k + 1..].iter().product();
    let n = ns[k];
    if n < 2 {
        return;
    }
    let how = r.below(4);
    let one = if r.p(0.5) { Some(r.below(n - 1)) } else { None };
    for i in 0..t.data.len() {
        let place = i / block % n;
        // Ends of the row, which stay or become the same
        let end = i % block == 0 || i % block == block - 1;
        if place == 0 || one.is_some_and(|x| x + 1 != place) {
            continue;
        }
        match how {
            0 => t.data[i] = t.data[i - block],
            1 if end => t.data[i] = t.data[i - block],
            2 if !end || block == 1 => t.data[i] = t.data[i - block],
            3 if place == n - 1 => t.data[i] = t.data[i - (n - 1) * block],
            _ => {}
        }
    }
}

/// A table which is like another one, but for one thing.
fn sibling(r: &mut Rng, t: &Table, s: &S, o: &TableOpt) -> Table {
    let old = t.eval(s).0.abs();
    for _ in 0..10 {
        let mut n = t.clone();
        let k = r.below(n.axes.len());
        match r.below(6) {
            0 => {}
            1 | 2 => n.axes[k].0 = r.pick(&o.vars),
            3 if !n.data.is_empty() => {
                let i = r.below(n.data.len());
                n.data[i] = r.range(-1., 1.) * o.scale;
            }
            4 => {
                let d = 0.1 * width(n.axes[k].0);
                n.axes[k].1.iter_mut().for_each(|x| *x += d);
            }
            _ => n.data.iter_mut().for_each(|x| *x *= -0.5),
        }
        let sorted = n.axes.iter().all(|a| a.1.windows(2).all(|w| w[0] < w[1]));
        let c = n.eval(s).0;
        if sorted && (c.is_nan() && t.is_empty() || c.abs() <= 3. * old + 3. * o.scale) {
            return n;
        }
    }
    t.clone()
}

pub fn engine(r: &mut Rng, thrust: f64, max_angle: f64) -> Engine {
    let mut ang = || match r.below(4) {
        0 => 0.,
        1 => r.pick(&[0.05, -0.05, 0.1]),
        _ => r.range(-max_angle, max_angle),
    };
    let incidence = [ang(), ang()];
    Engine {
        incidence,
        thrust,
        isp: r.range(200., 460.),
        // Mostly well below the thrust at sea level
        area: match r.below(4) {
            0 => 0.,
            _ => thrust / 101325. * r.range(0., 0.3),
        },
    }
}

pub fn engines(r: &mut Rng, total: f64, max_angle: f64) -> Vec<Engine> {
    let n = if r.p(0.03) { r.int(10, 40) } else { r.pick(&[1, 1, 1, 2, 2, 3, 4, 6, 9]) };
    let mut v: Vec<Engine> = (0..n)
        .map(|_| {
            let t = total / n as f64 * r.range(0.6, 1.4);
            engine(r, t, max_angle)
        })
        .collect();
    if n > 1 && r.p(0.3) {
        // Some of the same kind
        for i in 1..n {
            if r.p(0.6) {
                let was = v[i].clone();
                v[i] = v[i - 1].clone();
                match r.below(6) {
                    0 => v[i].incidence = was.incidence,
                    1 => v[i].isp = was.isp,
                    2 => v[i].thrust = was.thrust,
                    3 => v[i].area = was.area,
                    4 => v[i].incidence[0] = -v[i].incidence[0],
                    _ => {}
                }
            }
        }
    }
    if r.p(0.1) {
        let i = r.below(n);
        v[i].thrust = 0.;
        v[i].area = if r.p(0.5) { 0. } else { total.abs() / 101325. * r.range(0., 0.2) };
        if r.p(0.5) {
            v[i].isp = 0.;
        }
    }
    v
}

/// Steering of one axis, turning about `rate` degrees over the next `span` seconds.
pub fn axis(r: &mut Rng, s: &S, vars: &[Var], strength: f64) -> Axis {
    if r.p(0.15) {
        return (r.pick(vars), [0.; 3]);
    }
    let v = if r.p(0.5) { var("time_since_event") } else { r.pick(vars) };
    let y = vget(v, s);
    let y = if y.is_finite() { y.abs() } else { 1. };
    let m = y.max(width(v)) * r.range(0.5, 2.);
    let mut c = [
        r.range(-1., 1.) * strength / m,
        r.range(-1., 1.) * strength / (m * m),
        r.range(-1., 1.) * strength / (m * m * m),
    ];
    match r.below(6) {
        0 | 1 => {
            c[1] = 0.;
            c[2] = 0.;
        }
        2 => c[0] = 0.,
        3 => {
            c[0] = 0.;
            c[1] = 0.;
        }
        _ => {}
    }
    (v, c)
}

/// Variables which can steer: without air, the Mach number is infinite.
pub fn usable_steering_vars(atm: bool) -> Vec<Var> {
    steering_vars().into_iter().filter(|&v| atm || vname(v) != "mach_number").collect()
}

/// Configures parameters in effect again, or slightly changed ones.
pub fn echo(r: &mut Rng, p: &mut PhaseCfg, e: &Eff) {
    let mut v = p.vehicle.take().unwrap_or_default();
    for _ in 0..r.pick(&[1, 1, 2, 4]) {
        match r.below(18) {
            0 => v.structure = Some(e.structure),
            1 => v.structure = Some(e.structure * r.log(1e-3, 0.5)),
            2 => v.propellant = Some(e.loaded),
            3 => v.area = Some(if r.p(0.7) { e.area } else { 0. }),
            4 => v.engines = Some(e.engines.clone()),
            5 | 6 => {
                let mut x = e.engines.clone();
                if let n @ 1.. = x.len() {
                    let i = r.below(n);
                    match r.below(7) {
                        0 => x[i].incidence[0] = -x[i].incidence[0],
                        1 => x[i].incidence = [x[i].incidence[1], x[i].incidence[0]],
                        2 => x[i].thrust *= r.range(0.5, 1.5),
                        3 => x[i].isp *= r.range(0.8, 1.2),
                        4 => x[i].area *= r.pick(&[0., 0.9]),
                        5 => {
                            x.pop();
                        }
                        _ => x.reverse(),
                    }
                }
                v.engines = Some(x);
            }
            7 => p.planet = Some(e.planet_cfg.clone()),
            8 | 9 => {
                if let Planet::Custom { mut re, mut rp, mut g, mut rate } = e.planet_cfg.as_custom() {
                    match r.below(8) {
                        0 => rate = 0.,
                        1 => rate = -rate,
                        2 => rate *= r.range(0.5, 1.5),
                        3 => {
                            let k = r.int(1, 3);
                            g[k] = 0.;
                        }
                        4 => {
                            let k = r.int(1, 3);
                            g[k] = r.sign() * r.log(1e-6, 1e-2);
                        }
                        5 => g[0] *= r.range(0.9, 1.1),
                        6 => rp = re,
                        _ => {
                            let f = r.range(0.99, 1.);
                            re *= f;
                            rp *= f;
                        }
                    }
                    p.planet = Some(Planet::Custom { re, rp, g, rate });
                }
            }
            10 => {
                let mut w = e.wind;
                if r.p(0.6) {
                    let k = r.below(3);
                    w[k] = if r.p(0.5) { 0. } else { -w[k] };
                }
                p.atmosphere = Some((p.atmosphere.and_then(|a| a.0), Some(w)));
            }
            11 => p.atmosphere = Some((Some(e.atm), p.atmosphere.and_then(|a| a.1))),
            12 => p.max_acc = Some(if e.max_acc.is_finite() { e.max_acc } else { -1. }),
            13 => p.stepsize = Some(e.stepsize),
            14 | 15 => {
                let mut st = p.steering.unwrap_or_default();
                let k = r.below(3);
                let mut a = e.steer[k];
                match r.below(4) {
                    0 => a.0 = var(r.pick(&["time", "time_since_event"])),
                    1 => {
                        let i = r.below(3);
                        a.1[i] = 0.;
                    }
                    2 => a = e.steer[(k + 1) % 3],
                    _ => {}
                }
                st[k] = Some(a);
                p.steering = Some(st);
            }
            _ => {
                let mut t = r.pick(&[&e.drag, &e.lift, &e.side]).clone();
                match r.below(4) {
                    0 if !t.data.is_empty() => {
                        let i = r.below(t.data.len());
                        t.data[i] = 0.;
                    }
                    1 => t = Table::empty(),
                    2 => t.interp = !t.interp,
                    _ => {}
                }
                match r.below(3) {
                    0 => v.drag = Some(t),
                    1 => v.lift = Some(t),
                    _ => v.side = Some(t),
                }
            }
        }
    }
    p.vehicle = if v == VehicleCfg::default() { None } else { Some(v) };
}

// ---------------------------------------------------------------- probes

/// A mission of phases which end immediately: many different states at little cost.
pub struct ProbeOpt {
    pub phases: (usize, usize),
    pub atm: f64,
    pub limit: f64,
    pub wind: f64,
    pub max_nodes: usize,
    pub engine_angle: f64,
    pub steer: f64,
    pub max_alt: f64,
    /// Duration of a phase in steps, if not zero
    pub steps: usize,
    /// Missions whose forces all act along the body axis (often exactly
    /// parallel or opposed)
    pub axial: f64,
}

pub const PROBE: ProbeOpt = ProbeOpt {
    phases: (1, 3),
    atm: 0.8,
    limit: 0.2,
    wind: 3000.,
    max_nodes: 20,
    engine_angle: 0.3,
    steer: 60.,
    max_alt: 1e9,
    steps: 0,
    axial: 0.05,
};

pub fn probe(r: &mut Rng, o: &ProbeOpt) -> Mission {
    let n = r.int(o.phases.0, o.phases.1);
    let axial = r.p(o.axial);
    let mut m = Mission::default();
    let mut carry = Carry::new();
    for i in 0..n {
        let mut p = PhaseCfg::default();
        let first = i == 0;
        if first {
            let mut ini = init(r);
            ini.alt = ini.alt.min(o.max_alt * r.f());
            p.init = Some(ini);
        }
        if first || r.p(0.2) {
            p.planet = if first && r.p(0.1) { None } else { Some(planet(r)) };
        }
        if first || r.p(0.3) {
            p.atmosphere = Some((Some(r.p(o.atm)), Some(wind(r, o.wind))));
        }
        if r.p(0.6) {
            p.stepsize = Some(r.log(1e-3, 30.));
        }
        let mut v = VehicleCfg::default();
        if first {
            v.structure = Some(r.log(1e2, 1e6));
            v.propellant = Some(r.log(1e2, 3e6));
            if r.p(0.1) {
                // From a gram to a mountain
                v.structure = Some(r.log(1e-3, 1e11));
                v.propellant = v.structure.map(|m| m * r.log(1e-2, 1e2));
            }
        }
        p.vehicle = Some(v.clone());
        // A first guess of the state, to place tables and steering
        let eval_now = |p: &PhaseCfg, carry: &Carry| {
            let mut c = carry.clone();
            c.start(p, first).1
        };
        let s = eval_now(&p, &carry);
        if first || r.p(0.5) {
            let en = p.atmosphere.as_ref().and_then(|a| a.0).unwrap_or(carry.eff.atm);
            let vars = usable_steering_vars(en);
            let mut st = [None; 3];
            for x in st.iter_mut() {
                if r.p(0.7) {
                    *x = Some(axis(r, &s, &vars, o.steer));
                }
            }
            p.steering = Some(st);
        }
        let s = eval_now(&p, &carry);
        if first || r.p(0.5) {
            let to = TableOpt { vars: table_vars(), max_nodes: o.max_nodes, scale: r.pick(&[0.1, 1., 3.]) };
            v.area = Some(r.log(0.1, 500.));
            if r.p(0.8) {
                v.drag = Some(table(r, &s, &to));
            }
            if r.p(0.8) && !axial {
                let like = v.drag.as_ref().filter(|_| r.p(0.15)).cloned();
                v.lift = Some(if let Some(t) = like { sibling(r, &t, &s, &to) } else { table(r, &s, &to) });
            }
            if r.p(0.8) && !axial {
                let like = r.pick(&[&v.drag, &v.lift]).as_ref().filter(|_| r.p(0.15)).cloned();
                v.side = Some(if let Some(t) = like { sibling(r, &t, &s, &to) } else { table(r, &s, &to) });
            }
        }
        if (first && r.p(0.9)) || r.p(0.4) {
            let t = s.mass * r.log(0.1, 60.);
            let mut e = engines(r, t, o.engine_angle);
            if axial {
                for x in e.iter_mut() {
                    x.incidence = [0.; 2];
                }
            }
            v.engines = Some(e);
        }
        p.vehicle = Some(v);
        if !first && r.p(0.4) {
            echo(r, &mut p, &carry.eff);
        }
        if r.p(o.limit) {
            // Around the acceleration without limit
            p.max_acc = Some(-1.);
            let mut s = eval_now(&p, &carry);
            let a = norm(s.veh_acc);
            if s.mass == 0. {
                s.mass = 1.;
            }
            let m = a * r.range(0.2, 1.3);
            p.max_acc = Some(if m > 1e-3 && m.is_finite() { m } else { r.log(0.1, 100.) });
            if s.q == 0. && norm(s.aero) == 0. && r.p(0.1) {
                // Coasting
                p.max_acc = Some(0.);
            }
        } else if r.p(0.3) {
            p.max_acc = Some(-1.);
        }
        let h = p.stepsize.unwrap_or(carry.eff.stepsize);
        if o.steps > 0 {
            p.end = Some((var("time_since_event"), h * r.int(0, o.steps) as f64));
        } else {
            p.end = Some((var("time_since_event"), 0.));
        }
        // Keep only phases which work
        let mut c2 = carry.clone();
        let (mut ph, mut end) = c2.fly(&p, first, o.steps + 5);
        if end != End::Done || ph.flags.ill {
            // The step may just be too long
            let k = p.end.unwrap().1 / h;
            let h = h * r.log(1e-6, 1e-2);
            p.stepsize = Some(h);
            p.end = Some((var("time_since_event"), k * h));
            c2 = carry.clone();
            (ph, end) = c2.fly(&p, first, o.steps + 5);
        }
        if end != End::Done || ph.flags.ill {
            if first {
                return probe(r, o);
            }
            continue;
        }
        carry = c2;
        m.phases.push(p);
    }
    m
}

// ---------------------------------------------------------------- flights

pub struct FlightOpt {
    pub phases: (usize, usize),
    pub max_steps: usize,
    /// Probability of each parameter to change at a phase.
    pub churn: f64,
    pub atm: f64,
    pub limit: f64,
    /// Probability of an aerodynamic table being more than a constant.
    pub tables: f64,
    /// Variables of end criteria.
    pub end_vars: Vec<Var>,
    /// Probability to start on the ground under thrust.
    pub launch: f64,
    pub change_planet: f64,
    pub thrust: f64,
    pub steer: f64,
    pub stepsize: (f64, f64),
}

pub fn end_vars() -> Vec<Var> {
    (0..VARS.len()).collect()
}

impl Default for FlightOpt {
    fn default() -> Self {
        FlightOpt {
            phases: (1, 6),
            max_steps: 40,
            churn: 0.35,
            atm: 0.7,
            limit: 0.25,
            tables: 0.5,
            end_vars: end_vars(),
            launch: 0.5,
            change_planet: 0.05,
            thrust: 0.85,
            steer: 30.,
            stepsize: (0.05, 10.),
        }
    }
}

fn step_size(r: &mut Rng, o: &FlightOpt) -> f64 {
    if r.p(0.5) {
        let c: Vec<f64> =
            [0.1, 0.25, 0.5, 1., 2., 5., 10., 0.3, 0.7, 3.].into_iter().filter(|x| *x >= o.stepsize.0 && *x <= o.stepsize.1).collect();
        if !c.is_empty() {
            return r.pick(&c);
        }
    }
    r.log(o.stepsize.0, o.stepsize.1)
}

/// Builds the configuration of the next phase (without end criterion).
fn next_phase(r: &mut Rng, o: &FlightOpt, carry: &Carry, first: bool, style: &mut FlightStyle) -> PhaseCfg {
    let mut p = PhaseCfg::default();
    let churn = |r: &mut Rng| first || r.p(o.churn);
    if first {
        let mut i = init(r);
        if style.launch {
            i.alt = r.pick(&[0., 0., 10., 100., 2000., -28., -300.]);
        } else if i.alt < 1e3 {
            i.alt = r.log(1e3, 4e6);
        }
        p.init = Some(i);
    } else if r.p(0.05) {
        // Only the first one matters
        p.init = Some(init(r));
    }
    if first && r.p(0.9) {
        let re_max = 2e7;
        p.planet = loop {
            let x = planet(r);
            let q = x.params();
            if q.re < re_max && q.re > 1e6 {
                break Some(x);
            }
        };
    } else if !first && r.p(o.change_planet) {
        p.planet = Some(r.pick(&[Planet::Spherical, Planet::Fisher, Planet::Smithsonian]));
    }
    if churn(r) && r.p(0.9) {
        let en = if r.p(0.8) || first { Some(r.p(o.atm)) } else { None };
        let w = if r.p(0.6) { Some(wind(r, 80.)) } else { None };
        p.atmosphere = Some((en, w));
    }
    if churn(r) && r.p(0.9) {
        p.stepsize = Some(step_size(r, o));
    }
    let mut v = VehicleCfg::default();
    if first {
        v.structure = Some(if r.p(0.1) { r.log(0.1, 1e8) } else { r.log(3e2, 3e5) });
        v.propellant = Some(v.structure.unwrap() * r.range(0.5, 9.));
        style.mass = v.structure.unwrap() + v.propellant.unwrap();
    } else {
        if r.p(0.3 * o.churn) {
            v.structure = Some(carry.eff.structure * r.range(0.3, 1.1));
        }
        if r.p(0.25 * o.churn) {
            v.propellant = Some(carry.eff.structure * r.range(0.3, 4.));
        }
    }
    // What is left of the propellant is dumped
    let dump = !first && r.p(0.08 * o.churn);
    if dump {
        v.propellant = Some(0.);
    }
    p.vehicle = Some(v.clone());
    let now = |p: &PhaseCfg| carry.clone().start(p, first).1;
    let s = now(&p);
    if churn(r) {
        let vars = usable_steering_vars(p.atmosphere.as_ref().and_then(|a| a.0).unwrap_or(carry.eff.atm));
        let mut st = [None; 3];
        for (i, x) in st.iter_mut().enumerate() {
            if r.p(if i == 2 { 0.8 } else { 0.35 }) {
                let strength = if style.launch { o.steer * 0.5 } else { o.steer };
                *x = Some(axis(r, &s, &vars, strength));
            }
        }
        p.steering = Some(st);
    }
    let s = now(&p);
    let to = TableOpt { vars: table_vars(), max_nodes: 12, scale: r.pick(&[0.2, 0.5, 1.]) };
    let tab = |r: &mut Rng, base: f64, spread: f64| {
        if r.p(o.tables) {
            table(r, &s, &TableOpt { scale: spread * to.scale, vars: to.vars.clone(), max_nodes: to.max_nodes })
        } else {
            Table::constant(base + spread * r.range(-1., 1.))
        }
    };
    if churn(r) {
        v.area = Some(r.log(0.3, 30.) * (s.mass / 1e4).powf(0.67));
    }
    if churn(r) && r.p(0.8) {
        v.drag = Some(tab(r, 0.5, 0.4));
    }
    if churn(r) && r.p(0.6) {
        v.lift = Some(match &v.drag {
            Some(t) if r.p(o.tables * 0.15) => sibling(r, t, &s, &to),
            _ => tab(r, 0., 0.4),
        });
    }
    if churn(r) && r.p(0.4) {
        v.side = Some(match &v.lift {
            Some(t) if r.p(o.tables * 0.15) => sibling(r, t, &s, &to),
            _ => tab(r, 0., 0.2),
        });
    }
    if first || r.p(o.churn) {
        if r.p(o.thrust) {
            let g = carry.eff.planet.mu.max(1.) / carry.eff.planet.re.powi(2);
            let g = if first { norm(s.grav) } else { g };
            let tw = if style.launch { r.range(1.15, 3.) } else { r.log(0.05, 4.) };
            v.engines = Some(engines(r, s.mass * g.max(0.5) * tw, 0.15));
        } else {
            v.engines = Some(vec![]);
        }
    }
    if dump {
        v.engines = if carry.eff.engines.is_empty() && r.p(0.5) { None } else { Some(vec![]) };
    }
    p.vehicle = if v == VehicleCfg::default() && r.p(0.5) { None } else { Some(v) };
    if !first && r.p(0.25) {
        echo(r, &mut p, &carry.eff);
    }
    if r.p(o.limit) {
        let mut q = p.clone();
        q.max_acc = Some(-1.);
        let s = now(&q);
        let a = norm(s.veh_acc);
        let m = a * r.range(0.6, 1.3);
        p.max_acc = Some(if m > 1e-2 && m.is_finite() { m } else { r.log(1., 50.) });
        if s.q == 0. && norm(s.aero) == 0. && r.p(0.1) {
            // Coasting
            p.max_acc = Some(0.);
        }
    } else if r.p(0.2) {
        p.max_acc = Some(-1.);
    }
    p
}

struct FlightStyle {
    launch: bool,
    mass: f64,
}

/// Missions of very many short phases.
pub fn chain_opt(r: &mut Rng) -> FlightOpt {
    let n = r.int(40, 300);
    FlightOpt { phases: (n, n), max_steps: 2, churn: r.range(0.02, 0.3), stepsize: (0.01, 1.), tables: 0.2, ..Default::default() }
}

/// A mission of thousands of phases, most of which change nothing.
pub fn parade(r: &mut Rng) -> (Mission, MRun) {
    loop {
        let fo = FlightOpt { phases: (1, 1), launch: 0., max_steps: 3, thrust: 0.3, atm: 0.3, tables: 0.1, limit: 0.1, ..Default::default() };
        let (mut m, _) = flight(r, &fo);
        let n = if crate::run::hooked() { r.log(1000., 70_000.) as usize } else { 40 };
        let h = m.effs()[0].stepsize.min(1e4 / n as f64) * r.log(0.01, 1.);
        m.phases[0].stepsize = Some(h);
        m.phases[0].end = Some((var("time_since_event"), h * r.int(1, 3) as f64));
        let change = r.pick(&[0., 1e-3, 0.03]);
        for i in 1..n {
            let mut p = PhaseCfg::default();
            if r.p(change) {
                match r.below(4) {
                    0 => p.stepsize = Some(h * r.range(0.5, 1.)),
                    1 => p.steering = Some([None, Some((var("time_since_event"), [r.range(-1., 1.), 0., 0.])), None]),
                    2 => p.vehicle = Some(VehicleCfg { area: Some(r.range(0.1, 10.)), ..Default::default() }),
                    _ => p.end = Some((var("time_since_event"), h * (i % 3) as f64)),
                }
            }
            m.phases.push(p);
        }
        let run = run(&m, 8 * n);
        let s = run.last();
        if run.end == End::Done && !run.ill() && s.is_some_and(|s| s.prop > -1e-9 && s.alt > 0.) {
            return (m, run);
        }
    }
}

/// A mission of very many steps (more than a 16 bit number holds).
pub fn marathon(r: &mut Rng, steps: usize) -> (Mission, MRun) {
    loop {
        let fo = FlightOpt { phases: (1, 1), launch: 0., max_steps: 3, thrust: 0.3, atm: 0.3, tables: 0.1, limit: 0.1, ..Default::default() };
        let (mut m, _) = flight(r, &fo);
        let h = m.effs()[0].stepsize * r.log(0.01, 1.);
        m.phases[0].stepsize = Some(h);
        let n = (steps as f64 * r.log(1., 4.)).round();
        let tse = var("time_since_event");
        if r.p(0.5) {
            m.phases[0].end = Some((tse, n * h));
        } else {
            m.phases[0].end = Some((tse, (n * 0.02).round() * h));
            m.phases.push(PhaseCfg { end: Some((var("time"), n * h)), ..Default::default() });
        }
        let run = run(&m, 5 * steps);
        let s = run.last();
        if run.end == End::Done && !run.ill() && s.is_some_and(|s| s.prop > -1e-9 && s.alt > 0.) {
            return (m, run);
        }
    }
}

/// A mission whose phases all reach their targets, according to the model.
pub fn flight(r: &mut Rng, o: &FlightOpt) -> (Mission, MRun) {
    'again: loop {
        let n = r.int(o.phases.0, o.phases.1);
        let mut m = Mission::default();
        let mut runs = vec![];
        let mut carry = Carry::new();
        let mut style = FlightStyle { launch: r.p(o.launch), mass: 0. };
        let mut fails = 0;
        while m.phases.len() < n {
            let first = m.phases.is_empty();
            if fails > 12 {
                if first {
                    continue 'again;
                }
                break;
            }
            fails += 1;
            let mut p = next_phase(r, o, &carry, first, &mut style);
            let mut c = carry.clone();
            let (mut env, s, f) = c.start(&p, first);
            if f.ill || f.impossible {
                continue;
            }
            // Explore where the phase would go
            env.eff.end = (var("time_since_event"), f64::MAX);
            let want = r.int(1, o.max_steps);
            let start = s;
            // Propellant was dumped
            let dry = env.eff.engines.is_empty() && s.prop == 0.;
            let (ex, _) = run_phase(&env, s, f, want);
            let mut states = vec![s];
            for x in &ex.steps {
                if x.alt < start.alt.min(0.) - 0.5 || (!dry && x.prop < 0.01 * x.mass.min(1.) - 1e-9) || x.tse > 1e5 {
                    break;
                }
                states.push(*x);
            }
            if states.len() < 2 {
                continue;
            }
            for attempt in 0..6 {
                let k = if r.p(0.3) { states.len() - 2 } else { r.below(states.len() - 1) };
                let (a, b) = (&states[k], &states[k + 1]);
                let inherited = !first && attempt == 0 && r.p(0.2);
                if inherited {
                    p.end = None;
                } else {
                    let v = if r.p(0.2) { var("time_since_event") } else { r.pick(&o.end_vars) };
                    let (ya, yb) = (vget(v, a), vget(v, b));
                    if !(ya.is_finite() && yb.is_finite()) {
                        continue;
                    }
                    let fr = match r.below(8) {
                        0 => 1.,
                        1 if attempt < 2 => 0.,
                        2 => r.range(0., 0.01),
                        3 => r.range(0.99, 1.),
                        _ => r.f(),
                    };
                    let mut t = ya + (yb - ya) * fr;
                    if r.p(0.2) && (yb - ya).abs() > 0. {
                        // A round number close by
                        let e = 10f64.powf((yb - ya).abs().log10().floor());
                        t = (t / e).round() * e;
                    }
                    if t.abs() > 1e14 {
                        continue;
                    }
                    p.end = Some((v, t));
                }
                let mut c2 = carry.clone();
                let (ph, end) = c2.fly(&p, first, want + 60);
                if end != End::Done || ph.flags.ill || ph.flags.impossible {
                    continue;
                }
                let last = *ph.steps.last().unwrap();
                if last.prop < 0. && last.mass < 0.5 * c2.eff.structure {
                    continue;
                }
                if last.alt < start.alt.min(0.) - 100. {
                    continue;
                }
                carry = c2;
                m.phases.push(p.clone());
                runs.push(ph);
                fails = 0;
                break;
            }
        }
        if m.phases.is_empty() {
            continue;
        }
        let steps = runs.iter().map(|p| p.steps.len()).sum();
        return (m, MRun { phases: runs, end: End::Done, steps });
    }
}
