//! Reads a mission back from its configuration, to look into a violation.

use crate::json::J;
use crate::model::*;

fn nums(j: &J) -> Option<Vec<f64>> {
    match j {
        J::Arr(v) => v.iter().map(|x| x.num()).collect(),
        _ => None,
    }
}

fn vec3(j: &J) -> Option<V3> {
    nums(j)?.try_into().ok()
}

fn get<'a>(j: &'a J, k: &str) -> Option<&'a J> {
    j.get(k).filter(|x| **x != J::Null)
}

fn pair(j: &J) -> Option<(Var, &J)> {
    match j {
        J::Arr(v) if v.len() == 2 => Some((var(v[0].str()?), &v[1])),
        _ => None,
    }
}

fn table(j: &J) -> Option<Table> {
    let mut t = Table::default();
    for k in ["x", "y", "z"] {
        if let Some(a) = get(j, k) {
            let (v, n) = pair(a)?;
            t.axes.push((v, nums(n)?));
        }
    }
    fn flat(j: &J, out: &mut Vec<f64>) {
        match j {
            J::Arr(v) => v.iter().for_each(|x| flat(x, out)),
            x => out.extend(x.num()),
        }
    }
    flat(get(j, "data")?, &mut t.data);
    t.interp = get(j, "interpolator").is_some();
    Some(t)
}

fn phase(j: &J) -> Option<PhaseCfg> {
    let n = |j: &J, k: &str| get(j, k).and_then(|x| x.num());
    let mut p = PhaseCfg { max_acc: n(j, "max_acceleration"), stepsize: n(j, "stepsize"), ..Default::default() };
    if let Some(i) = get(j, "init") {
        p.init = Some(Init { lat: n(i, "latitude")?, long: n(i, "longitude")?, az: n(i, "azimuth")?, alt: n(i, "altitude")? });
    }
    if let Some(v) = get(j, "vehicle") {
        let engines = match get(v, "engines") {
            Some(J::Arr(l)) => Some(
                l.iter()
                    .map(|e| {
                        Some(Engine {
                            incidence: nums(get(e, "incidence")?)?.try_into().ok()?,
                            thrust: n(e, "thrust_vac")?,
                            isp: n(e, "isp_vac")?,
                            area: n(e, "exit_area")?,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?,
            ),
            _ => None,
        };
        p.vehicle = Some(VehicleCfg {
            structure: n(v, "structure_mass"),
            propellant: n(v, "propellant_mass"),
            area: n(v, "reference_area"),
            drag: get(v, "drag_coeff").and_then(table),
            lift: get(v, "lift_coeff").and_then(table),
            side: get(v, "side_force_coeff").and_then(table),
            engines,
        });
    }
    if let Some(s) = get(j, "steering") {
        let mut a = [None; 3];
        for (i, k) in ["roll", "yaw", "pitch"].into_iter().enumerate() {
            if let Some(x) = get(s, k) {
                let (v, c) = pair(x)?;
                a[i] = Some((v, vec3(c)?));
            }
        }
        p.steering = Some(a);
    }
    p.planet = match get(j, "planet_model") {
        Some(J::Str(s)) if s == "spherical" => Some(Planet::Spherical),
        Some(J::Str(s)) if s == "smithsonian" => Some(Planet::Smithsonian),
        Some(J::Str(_)) => Some(Planet::Fisher),
        Some(x) => {
            let c = get(x, "custom")?;
            let g = nums(get(c, "gravitational_parameters")?)?.try_into().ok()?;
            Some(Planet::Custom { re: n(c, "equatorial_radius")?, rp: n(c, "polar_radius")?, g, rate: n(c, "rotation_rate")? })
        }
        None => None,
    };
    if let Some(a) = get(j, "atmosphere") {
        let en = match get(a, "enabled") {
            Some(J::Bool(b)) => Some(*b),
            _ => None,
        };
        p.atmosphere = Some((en, get(a, "wind").and_then(vec3)));
    }
    if let Some(e) = get(j, "end_criterion") {
        let (v, t) = pair(e)?;
        p.end = Some((v, t.num()?));
    }
    Some(p)
}

pub fn mission(text: &str) -> Option<Mission> {
    match J::parse(text)? {
        J::Arr(v) => Some(Mission { phases: v.iter().map(phase).collect::<Option<_>>()? }),
        _ => None,
    }
}
