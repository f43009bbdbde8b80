//! Oracles which judge a single observed state, from its own other fields.
//!
//! `Ok(true)`: judged, and non-trivial. `Ok(false)`: holds trivially, or
//! rounding does not allow to judge it.

use crate::model::*;

pub type Verdict = Result<bool, String>;

fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    // Denormal numbers are rounded absolutely
    if (got - want).abs() <= tol + 1e-300 || got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:e}, should be {want:e} (difference {:e}, tolerance {tol:e})", got - want))
    }
}

fn near3(what: &str, got: V3, want: V3, tol: f64) -> Result<(), String> {
    if dist(got, want) <= tol + 1e-300 || got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, should be {want:?} (difference {:e}, tolerance {tol:e})", dist(got, want)))
    }
}

pub fn usable(s: &S) -> bool {
    finite(s.pos) && finite(s.vel) && s.mass.is_finite() && s.mass > 0. && norm(s.pos) > 1.
}

pub fn motion(env: &Env, s: &S) -> Verdict {
    if !usable(s) || !finite(s.thrust) || !finite(s.aero) || s.euler.iter().any(|e| !(e.abs() < 1e4)) {
        return Ok(false);
    }
    let forces = (norm(s.thrust) + norm(s.aero)) / s.mass;
    near3("sensed acceleration", s.veh_acc, scale(add(s.thrust, s.aero), 1. / s.mass), 1e-12 * forces)?;
    let axes = body_axes(env.launch, s.euler);
    let turn = 1. + s.euler.iter().chain(&env.launch).fold(0., |a: f64, e| a.max(e.abs()));
    near3(
        "acceleration",
        s.acc,
        add(from_body(&axes, s.veh_acc), s.grav),
        1e-14 * (10. + turn) * (norm(s.veh_acc) * 10. + norm(s.grav)),
    )?;
    Ok(norm(s.veh_acc) > 1e-9)
}

pub fn gravity_at(env: &Env, s: &S) -> Verdict {
    if !usable(s) {
        return Ok(false);
    }
    let p = &env.eff.planet;
    let want = gravity(p, s.pos);
    let r = norm(s.pos);
    let mut size = 1.;
    for n in 2..5 {
        size += 10. * p.j[n - 2].abs() * (p.re / r).powi(n as i32);
    }
    near3("gravitational acceleration", s.grav, want, 1e-12 * size * p.mu.abs() / (r * r))?;
    Ok(true)
}

pub fn air(env: &Env, s: &S) -> Verdict {
    if !usable(s) {
        return Ok(false);
    }
    if !env.eff.atm {
        for (n, x) in [("temperature", s.temp), ("pressure", s.pres), ("density", s.dens), ("dynamic pressure", s.q)] {
            if x != 0. && !(n == "dynamic pressure" && x.is_nan()) {
                return Err(format!("{n} is {x:e} with the atmosphere disabled"));
            }
        }
        let v = norm(s.vel_atm);
        if v > 0. && v.is_finite() && s.mach != f64::INFINITY {
            return Err(format!("Mach number is {:e} with the atmosphere disabled", s.mach));
        }
        return Ok(false);
    }
    // The standard is published from 5 km below sea level on
    if !(s.altg >= -5000.) || !s.altg.is_finite() {
        return Ok(false);
    }
    let l = layer(s.altg);
    let check = |l: usize| -> Result<(), String> {
        let (t, p) = atmosphere_in(s.altg, l);
        // Rounding of the altitude
        let rt = 1e-12 + 1e-15 * s.altg.abs() / t;
        near("temperature", s.temp, t, rt * t)?;
        near("pressure", s.pres, p, 100. * rt * p + 1e-9 * p * if ATMOS[l].3 == 0. { 1e-3 } else { 1. })?;
        Ok(())
    };
    let r = check(l);
    if r.is_err() && boundary_distance(s.altg) < 1e-6 && (check(l.saturating_sub(1)).is_ok() || l + 1 < ATMOS.len() && check(l + 1).is_ok()) {
        return Ok(false);
    }
    r.map_err(|e| format!("{e} at {} m geopotential altitude", s.altg))?;
    near("density", s.dens, s.pres / (R_AIR * s.temp), 1e-12 * s.dens.abs())?;
    let v = norm(s.vel_atm);
    near("Mach number", s.mach, v / (1.4 * R_AIR * s.temp).sqrt(), 1e-12 * s.mach.abs())?;
    near("dynamic pressure", s.q, 0.5 * s.dens * v * v, 1e-12 * s.q.abs())?;
    Ok(true)
}

pub fn alpha_at(env: &Env, s: &S) -> Verdict {
    if !usable(s) || s.euler.iter().any(|e| !(e.abs() < 1e4)) || !finite(s.vel_atm) {
        return Ok(false);
    }
    let axes = body_axes(env.launch, s.euler);
    let b = to_body(&axes, s.vel_atm);
    let v = norm(s.vel_atm);
    let (want, ill) = alpha(b, v);
    if ill {
        return Ok(false);
    }
    let turn = 10. + s.euler.iter().chain(&env.launch).fold(0., |a: f64, e| a.max(e.abs()));
    let tol = if b[0] < 1e-6 { 1e-14 } else { 1e-14 * turn * v / b[0].hypot(b[2]) };
    near("angle of attack", s.alpha, want, tol).map_err(|e| format!("{e} for the air-relative velocity {b:?} in the body frame"))?;
    Ok(want != 0.)
}

pub fn aero_at(env: &Env, s: &S) -> Verdict {
    if !usable(s) || !s.q.is_finite() || !s.alpha.is_finite() {
        return Ok(false);
    }
    let (want, err) = aero(&env.eff, s);
    if !finite(want) || !err.is_finite() {
        return Ok(false);
    }
    near3("aerodynamic force", s.aero, want, err + 1e-14 * norm(want))?;
    Ok(norm(want) > 0. && err < 1e-3 * norm(want))
}

pub fn thrust_at(env: &Env, s: &S) -> Verdict {
    if !s.throttle.is_finite() || !s.pres.is_finite() {
        return Ok(false);
    }
    let e = &env.eff.engines;
    let mag: f64 = e.iter().map(|e| e.thrust.abs() + (e.area * s.pres).abs()).sum();
    near3("thrust", s.thrust, scale(full_thrust(e, s.pres), s.throttle), 1e-13 * mag)?;
    let flow = full_flow(e) * s.throttle;
    near("mass flow", s.flow, -flow, 1e-13 * flow_size(e))?;
    Ok(mag > 0.)
}

/// Judges the throttle, also against the mass and forces of the state.
pub fn throttle_at(env: &Env, s: &S) -> Verdict {
    if !usable(s) || !finite(s.aero) {
        return Ok(false);
    }
    if !(s.throttle >= 0. && s.throttle <= 1.) {
        return Err(format!("throttle is {:e}", s.throttle));
    }
    let m = env.eff.max_acc;
    let a = norm(s.veh_acc);
    if a > m * 1.001 * (1. + 1e-9) {
        return Err(format!("sensed acceleration is {a:e}, but at most {m:e} is allowed"));
    }
    let full = full_thrust(&env.eff.engines, s.pres);
    match throttle(m * s.mass, s.aero, full) {
        Thr::Ill => Ok(false),
        Thr::Full => {
            near("throttle", s.throttle, 1., 1e-6)?;
            Ok(m.is_finite() && norm(full) > 0.)
        }
        Thr::Limited(x) => {
            near("throttle", s.throttle, x, 1e-6)?;
            // At the limit, not below
            if norm(full) > 0. && x > 1e-3 {
                near("sensed acceleration while throttled", a, m, 2e-6 * m * (1. + norm(full) / (m * s.mass)))?;
            }
            Ok(true)
        }
        Thr::Impossible => Err(format!(
            "the flight went on, although the maximum acceleration {m:e} cannot be kept (sensed acceleration {a:e})"
        )),
    }
}

pub fn attitude(env: &Env, s: &S) -> Verdict {
    let mut non_trivial = false;
    for i in 0..3 {
        let (v, c) = env.eff.steer[i];
        let y = vget(v, s);
        if !y.is_finite() {
            continue;
        }
        let rad = std::f64::consts::PI / 180.;
        let t = [c[0] * y * rad, c[1] * y * y * rad, c[2] * y * y * y * rad];
        let mag = env.c0[i].abs() + t.iter().map(|x| x.abs()).sum::<f64>();
        let want = env.c0[i] + t[0] + t[1] + t[2];
        if !want.is_finite() {
            continue;
        }
        near(["roll", "yaw", "pitch"][i], s.euler[i], want, 3e-14 * mag)
            .map_err(|e| format!("{e}, with {} = {y:e}", vname(v)))?;
        non_trivial |= t.iter().any(|x| *x != 0.);
    }
    Ok(non_trivial)
}

pub fn kinematics(env: &Env, s: &S) -> Verdict {
    if !usable(s) {
        return Ok(false);
    }
    let p = &env.eff.planet;
    let r = norm(s.pos);
    let angle = (p.rate * s.time).abs();
    near3("planet-relative position", s.pos_planet, pos_planet(p, s.time, s.pos), 1e-14 * (10. + angle) * r)?;
    let vp = vel_planet(p, s.pos, s.vel);
    let vmag = norm(s.vel) + (p.rate * r).abs();
    near3("planet-relative velocity", s.vel_planet, vp, 1e-14 * vmag)?;
    near3(
        "atmosphere-relative velocity",
        s.vel_atm,
        sub(s.vel_planet, env.eff.wind),
        1e-14 * (vmag + norm(env.eff.wind)),
    )?;
    let re = p.re.max(p.rp);
    near("altitude", s.alt, altitude(p, s.pos), 3e-14 * (r + re * (re / p.rp.min(p.re)).powi(2)))?;
    let ravg = 0.5 * (p.re + p.rp);
    let g = geopotential(p, s.alt);
    if (ravg + s.alt).abs() > 1. {
        near("geopotential altitude", s.altg, g, 1e-13 * (g.abs() + s.alt.abs() * (ravg / (ravg + s.alt)).abs()))?;
    }
    Ok(true)
}

pub fn propellant(env: &Env, s: &S) -> Verdict {
    near("propellant mass", s.prop, s.mass - env.eff.structure, 1e-14 * (s.mass.abs() + env.eff.structure.abs()))?;
    Ok(true)
}

/// Judges a step by the change of time, position, velocity and mass against
/// one of the reference integrator.
pub fn step(env: &Env, a: &S, b: &S) -> Verdict {
    let h = b.time - a.time;
    if !(h > 0. && h.is_finite()) || !usable(a) || !finite(a.acc) {
        return Ok(false);
    }
    // The time since the event is kept more precisely than the difference of large times
    let h2 = b.tse - a.tse;
    let h = if (h2 - h).abs() < 1e-9 * (1. + a.time.abs()) { h2 } else { h };
    let (n, f) = rk4(env, a, h);
    if f.ill || f.impossible || !usable(&n) {
        return Ok(false);
    }
    let (ap, av, am) = amplification(env, a, h, &n);
    if !(ap.is_finite() && av.is_finite() && am.is_finite()) {
        return Ok(false);
    }
    let rel = if f.limited { 1e-6 } else { 1e-10 };
    // Forces, also those which cancel out
    let acc = norm(a.acc).max(norm(n.acc)).max(norm(a.veh_acc)).max(norm(n.veh_acc)) + norm(n.grav);
    let steep = norm(sub(n.acc, a.acc));
    let dv = (acc + steep) * h;
    // Rounding of the step size
    let dh = 4e-16 * (b.time.abs() + b.tse.abs()) + 1e-15 * h;
    near3("velocity after the step", b.vel, n.vel, rel * dv + 1e-14 * norm(a.vel) + (acc + steep) * dh + 2. * av)?;
    near3(
        "position after the step",
        b.pos,
        n.pos,
        rel * dv * h + 3e-15 * norm(a.pos) + (norm(a.vel) + dv) * dh + 1e-14 * h * norm(a.vel) + 2. * ap,
    )?;
    let flow = flow_size(&env.eff.engines);
    near("mass after the step", b.mass, n.mass, rel * flow * h + flow * dh + 1e-14 * a.mass + 2. * am)?;
    Ok(true)
}
