//! Independent reference model: mission configuration, its JSON form, the
//! inheritance of parameters between phases, and the equations of motion.
//!
//! Nothing here calls the code under test. Formulas are written from the
//! manual and from physics, where possible in another form than the code uses.

use crate::rng::Rng;
use std::f64::consts::PI;
use std::fmt::Write;

pub type V3 = [f64; 3];

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist(a: V3, b: V3) -> f64 {
    norm(sub(a, b))
}
pub fn finite(a: V3) -> bool {
    a.iter().all(|x| x.is_finite())
}

/// A plain copy of the simulation state.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct S {
    pub time: f64,
    pub tse: f64,
    pub pos: V3,
    pub pos_planet: V3,
    pub alt: f64,
    pub altg: f64,
    pub vel: V3,
    pub vel_planet: V3,
    pub vel_atm: V3,
    pub acc: V3,
    pub thrust: V3,
    pub aero: V3,
    pub veh_acc: V3,
    pub grav: V3,
    pub mass: f64,
    pub prop: f64,
    pub flow: f64,
    pub temp: f64,
    pub pres: f64,
    pub dens: f64,
    pub mach: f64,
    pub q: f64,
    pub alpha: f64,
    pub euler: V3,
    pub throttle: f64,
}

impl S {
    pub fn scalars(&self) -> Vec<f64> {
        let mut v = vec![
            self.time, self.tse, self.alt, self.altg, self.mass, self.prop, self.flow, self.temp, self.pres,
            self.dens, self.mach, self.q, self.alpha, self.throttle,
        ];
        for a in [
            self.pos, self.pos_planet, self.vel, self.vel_planet, self.vel_atm, self.acc, self.thrust, self.aero,
            self.veh_acc, self.grav, self.euler,
        ] {
            v.extend_from_slice(&a);
        }
        v
    }
    /// Bit pattern, to compare runs exactly (all NaNs count as equal).
    pub fn bits(&self) -> Vec<u64> {
        self.scalars().iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
    }
    pub fn hash(&self) -> u64 {
        crate::rng::mix(&self.bits())
    }
}

/// Availability of a state variable as an input of steering and tables.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Avail {
    /// Known before the attitude is calculated.
    Steering,
    /// Known before the aerodynamic coefficients are calculated.
    Table,
    /// Only known afterwards: usable as end criterion.
    End,
}

pub struct VarInfo {
    pub name: &'static str,
    pub get: fn(&S) -> f64,
    pub avail: Avail,
    /// Whether the user manual lists it.
    pub documented: bool,
}

pub type Var = usize;

macro_rules! vars {
    ($(($name:literal, $get:expr, $avail:ident, $doc:literal)),* $(,)?) => {
        pub static VARS: &[VarInfo] = &[$(VarInfo { name: $name, get: $get, avail: Avail::$avail, documented: $doc }),*];
    };
}

vars![
    ("time", |s| s.time, Steering, true),
    ("time_since_event", |s| s.tse, Steering, true),
    ("position1", |s| s.pos[0], Steering, true),
    ("position2", |s| s.pos[1], Steering, true),
    ("position3", |s| s.pos[2], Steering, true),
    ("position_norm", |s| norm(s.pos), Steering, true),
    ("position_planet1", |s| s.pos_planet[0], Steering, true),
    ("position_planet2", |s| s.pos_planet[1], Steering, true),
    ("position_planet3", |s| s.pos_planet[2], Steering, true),
    ("altitude", |s| s.alt, Steering, true),
    ("altitude_geopotential", |s| s.altg, Steering, true),
    ("velocity1", |s| s.vel[0], Steering, true),
    ("velocity2", |s| s.vel[1], Steering, true),
    ("velocity3", |s| s.vel[2], Steering, true),
    ("velocity_norm", |s| norm(s.vel), Steering, true),
    ("velocity_planet1", |s| s.vel_planet[0], Steering, true),
    ("velocity_planet2", |s| s.vel_planet[1], Steering, true),
    ("velocity_planet3", |s| s.vel_planet[2], Steering, true),
    ("velocity_planet_norm", |s| norm(s.vel_planet), Steering, true),
    ("velocity_atmosphere1", |s| s.vel_atm[0], Steering, true),
    ("velocity_atmosphere2", |s| s.vel_atm[1], Steering, true),
    ("velocity_atmosphere3", |s| s.vel_atm[2], Steering, true),
    ("velocity_atmosphere_norm", |s| norm(s.vel_atm), Steering, true),
    ("acceleration1", |s| s.acc[0], End, false),
    ("acceleration2", |s| s.acc[1], End, false),
    ("acceleration3", |s| s.acc[2], End, false),
    ("acceleration_norm", |s| norm(s.acc), End, false),
    ("thrust_force_body1", |s| s.thrust[0], End, false),
    ("thrust_force_body2", |s| s.thrust[1], End, false),
    ("thrust_force_body3", |s| s.thrust[2], End, false),
    ("thrust_force_body_norm", |s| norm(s.thrust), End, false),
    ("aero_force_body1", |s| s.aero[0], End, false),
    ("aero_force_body2", |s| s.aero[1], End, false),
    ("aero_force_body3", |s| s.aero[2], End, false),
    ("aero_force_body_norm", |s| norm(s.aero), End, false),
    ("vehicle_acceleration_body1", |s| s.veh_acc[0], End, false),
    ("vehicle_acceleration_body2", |s| s.veh_acc[1], End, false),
    ("vehicle_acceleration_body3", |s| s.veh_acc[2], End, false),
    ("vehicle_acceleration_body_norm", |s| norm(s.veh_acc), End, false),
    ("gravity_acceleration1", |s| s.grav[0], Steering, true),
    ("gravity_acceleration2", |s| s.grav[1], Steering, true),
    ("gravity_acceleration3", |s| s.grav[2], Steering, true),
    ("gravity_acceleration_norm", |s| norm(s.grav), Steering, true),
    ("mass", |s| s.mass, Steering, true),
    ("propellant_mass", |s| s.prop, Steering, true),
    ("massflow", |s| s.flow, End, false),
    ("temperature", |s| s.temp, Steering, true),
    ("pressure", |s| s.pres, Steering, true),
    ("density", |s| s.dens, Steering, true),
    ("mach_number", |s| s.mach, Steering, true),
    ("dynamic_pressure", |s| s.q, Steering, true),
    ("alpha", |s| s.alpha, Table, true),
    ("euler_angles_roll", |s| s.euler[0], Table, true),
    ("euler_angles_yaw", |s| s.euler[1], Table, true),
    ("euler_angles_pitch", |s| s.euler[2], Table, true),
    ("throttle", |s| s.throttle, End, false),
];

pub fn var(name: &str) -> Var {
    VARS.iter().position(|v| v.name == name).unwrap_or_else(|| panic!("no variable {name}"))
}
pub fn vname(v: Var) -> &'static str {
    VARS[v].name
}
pub fn vget(v: Var, s: &S) -> f64 {
    (VARS[v].get)(s)
}
pub fn steering_vars() -> Vec<Var> {
    (0..VARS.len()).filter(|&v| VARS[v].avail == Avail::Steering).collect()
}
pub fn table_vars() -> Vec<Var> {
    (0..VARS.len()).filter(|&v| VARS[v].avail != Avail::End).collect()
}

// ---------------------------------------------------------------- configuration

#[derive(Clone, Debug, PartialEq)]
pub enum Planet {
    Spherical,
    Fisher,
    Smithsonian,
    Custom { re: f64, rp: f64, g: [f64; 4], rate: f64 },
}

/// Parameters of a planet.
#[derive(Clone, Debug, PartialEq)]
pub struct PlanetP {
    pub re: f64,
    pub rp: f64,
    pub mu: f64,
    /// J2, J3, J4
    pub j: [f64; 3],
    pub rate: f64,
}

const FT: f64 = 0.3048;

impl Planet {
    pub fn params(&self) -> PlanetP {
        let ft3 = FT * FT * FT;
        match self {
            Planet::Spherical => PlanetP {
                re: 20925741. * FT,
                rp: 20925741. * FT,
                mu: 1.4076539e16 * ft3,
                j: [0.; 3],
                rate: 7.29211e-5,
            },
            Planet::Fisher => PlanetP {
                re: 20925741. * FT,
                rp: 20855590. * FT,
                mu: 1.4076539e16 * ft3,
                j: [1.0823e-3, 0., 0.],
                rate: 7.29211e-5,
            },
            Planet::Smithsonian => PlanetP {
                re: 20925741. * FT,
                rp: 20855590. * FT,
                mu: 1.407645794e16 * ft3,
                j: [1.082639e-3, -2.565e-6, -1.608e-6],
                rate: 7.29211e-5,
            },
            Planet::Custom { re, rp, g, rate } => {
                PlanetP { re: *re, rp: *rp, mu: g[0], j: [g[1], g[2], g[3]], rate: *rate }
            }
        }
    }
    /// The same planet written out as a custom one.
    pub fn as_custom(&self) -> Planet {
        let p = self.params();
        Planet::Custom { re: p.re, rp: p.rp, g: [p.mu, p.j[0], p.j[1], p.j[2]], rate: p.rate }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Table {
    pub axes: Vec<(Var, Vec<f64>)>,
    /// Row-major data.
    pub data: Vec<f64>,
    pub interp: bool,
}

impl Table {
    pub fn empty() -> Table {
        Table { axes: vec![(0, vec![])], data: vec![], interp: false }
    }
    pub fn constant(c: f64) -> Table {
        Table { axes: vec![(0, vec![0.])], data: vec![c], interp: false }
    }
    pub fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    /// Multilinear interpolation. Also returns a bound for the effect of rounding.
    pub fn eval(&self, s: &S) -> (f64, f64) {
        if self.data.is_empty() {
            return (f64::NAN, 0.);
        }
        let (v, err, at_node) = self.eval_side(s, false);
        if !at_node {
            return (v, err);
        }
        // Rounding (also of the nodes, when they are read) decides on the segment
        let (v2, err2, _) = self.eval_side(s, true);
        (v, err + err2 + (v - v2).abs())
    }
    /// At a node, the segment on its other side is used if `other`. Also tells whether a
    /// variable is at a node.
    fn eval_side(&self, s: &S, other: bool) -> (f64, f64, bool) {
        let mut at_node = false;
        // Per axis: the nodes used and their weights
        let mut parts: Vec<Vec<(usize, f64)>> = vec![];
        let mut cond = 10.;
        for (v, nodes) in &self.axes {
            if nodes.len() == 1 {
                // Does not depend on this variable
                parts.push(vec![(0, 1.)]);
                continue;
            }
            let x = vget(*v, s);
            // The segment which contains x, or the closest one
            let mut seg = 0;
            while seg + 2 < nodes.len() && x > nodes[seg + 1] {
                seg += 1;
            }
            let at = |n: f64| (x - n).abs() <= 1e-13 * n.abs();
            if seg + 2 < nodes.len() && at(nodes[seg + 1]) {
                at_node = true;
                if other {
                    seg += 1;
                }
            } else if seg > 0 && at(nodes[seg]) {
                at_node = true;
                if other {
                    seg -= 1;
                }
            }
            let dx = nodes[seg + 1] - nodes[seg];
            let w = (x - nodes[seg]) / dx;
            cond += (x.abs() + nodes[seg].abs()) / dx;
            parts.push(vec![(seg, 1. - w), (seg + 1, w)]);
        }
        let mut sum = 0.;
        let mut mag = 0.;
        let mut corner = vec![0; parts.len()];
        loop {
            let mut idx = 0;
            let (mut w, mut bound) = (1., 1.);
            for (d, p) in parts.iter().enumerate() {
                let (n, pw) = p[corner[d]];
                idx = idx * self.axes[d].1.len() + n;
                w *= pw;
                // An error of the variable changes the weight also where it is zero
                bound *= pw.abs() + 1.;
            }
            sum += w * self.data[idx];
            mag += bound * self.data[idx].abs();
            let mut d = 0;
            while d < parts.len() && corner[d] + 1 == parts[d].len() {
                corner[d] = 0;
                d += 1;
            }
            if d == parts.len() {
                break;
            }
            corner[d] += 1;
        }
        (sum, 1e-14 * mag * cond, at_node)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Engine {
    pub incidence: [f64; 2],
    pub thrust: f64,
    pub isp: f64,
    pub area: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Init {
    pub lat: f64,
    pub long: f64,
    pub az: f64,
    pub alt: f64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct VehicleCfg {
    pub structure: Option<f64>,
    pub propellant: Option<f64>,
    pub area: Option<f64>,
    pub drag: Option<Table>,
    pub lift: Option<Table>,
    pub side: Option<Table>,
    pub engines: Option<Vec<Engine>>,
}

pub type Axis = (Var, [f64; 3]);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct PhaseCfg {
    pub init: Option<Init>,
    pub vehicle: Option<VehicleCfg>,
    /// Roll, yaw, pitch
    pub steering: Option<[Option<Axis>; 3]>,
    pub planet: Option<Planet>,
    pub atmosphere: Option<(Option<bool>, Option<V3>)>,
    pub max_acc: Option<f64>,
    pub stepsize: Option<f64>,
    pub end: Option<(Var, f64)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mission {
    pub phases: Vec<PhaseCfg>,
}

/// Parameters in effect during a phase.
#[derive(Clone, Debug)]
pub struct Eff {
    pub structure: f64,
    /// Propellant mass which was configured last.
    pub loaded: f64,
    pub area: f64,
    pub drag: Table,
    pub lift: Table,
    pub side: Table,
    pub engines: Vec<Engine>,
    pub steer: [Axis; 3],
    pub planet: PlanetP,
    pub planet_cfg: Planet,
    pub atm: bool,
    pub wind: V3,
    /// Infinite if there is none.
    pub max_acc: f64,
    pub stepsize: f64,
    pub end: (Var, f64),
}

impl Default for Eff {
    fn default() -> Self {
        Eff {
            structure: 0.,
            loaded: 0.,
            area: 0.,
            drag: Table::empty(),
            lift: Table::empty(),
            side: Table::empty(),
            engines: vec![],
            steer: [(0, [0.; 3]); 3],
            planet: Planet::Spherical.params(),
            planet_cfg: Planet::Spherical,
            atm: false,
            wind: [0.; 3],
            max_acc: f64::INFINITY,
            stepsize: 1.,
            end: (var("time_since_event"), 0.),
        }
    }
}

impl Eff {
    pub fn apply(&mut self, c: &PhaseCfg) {
        if let Some(v) = &c.vehicle {
            if let Some(x) = v.structure {
                self.structure = x;
            }
            if let Some(x) = v.propellant {
                self.loaded = x;
            }
            if let Some(x) = v.area {
                self.area = x;
            }
            if let Some(x) = &v.drag {
                self.drag = x.clone();
            }
            if let Some(x) = &v.lift {
                self.lift = x.clone();
            }
            if let Some(x) = &v.side {
                self.side = x.clone();
            }
            if let Some(x) = &v.engines {
                self.engines = x.clone();
            }
        }
        if let Some(st) = &c.steering {
            for i in 0..3 {
                if let Some(a) = st[i] {
                    self.steer[i] = a;
                }
            }
        }
        if let Some(p) = &c.planet {
            self.planet = p.params();
            self.planet_cfg = p.clone();
        }
        if let Some((en, wind)) = &c.atmosphere {
            if let Some(e) = en {
                self.atm = *e;
            }
            if let Some(w) = wind {
                self.wind = *w;
            }
        }
        if let Some(m) = c.max_acc {
            self.max_acc = if m == -1. { f64::INFINITY } else { m };
        }
        if let Some(h) = c.stepsize {
            self.stepsize = h;
        }
        if let Some(e) = c.end {
            self.end = e;
        }
    }
}

/// Mass at the start of a phase, from the propellant and total mass left.
pub fn start_mass(c: &PhaseCfg, eff: &Eff, prev_prop: f64, prev_mass: f64) -> f64 {
    if let Some(v) = &c.vehicle {
        if let Some(p) = v.propellant {
            return eff.structure + p;
        }
        if v.structure.is_some() {
            return eff.structure + prev_prop;
        }
    }
    prev_mass
}

// ---------------------------------------------------------------- JSON output

/// How a mission is written as JSON. All styles mean the same.
#[derive(Clone)]
pub struct Style {
    /// Probability to write an absent value as null instead of leaving it out.
    pub null: f64,
    pub shuffle: bool,
    pub pretty: bool,
    /// Write numbers in varying formats.
    pub numbers: bool,
    /// Probability to write a character of a string as an escape sequence.
    pub escape: f64,
    /// Probability of blank space of up to so many characters.
    pub inflate: (f64, usize),
}

pub const PLAIN: Style = Style { null: 0., shuffle: false, pretty: false, numbers: false, escape: 0., inflate: (0., 0) };

pub fn random_style(r: &mut Rng) -> Style {
    Style {
        null: r.pick(&[0., 0.3, 1.]),
        shuffle: r.p(0.5),
        pretty: r.p(0.3),
        numbers: r.p(0.5),
        escape: if r.p(0.07) { r.pick(&[0.02, 0.3, 1.]) } else { 0. },
        inflate: match r.below(1000) {
            0 => (0.01, 1_000_000),
            1..=10 => (0.01, 20_000),
            _ => (0., 0),
        },
    }
}

struct W<'a> {
    st: &'a Style,
    r: Rng,
}

impl W<'_> {
    fn num(&mut self, x: f64) -> String {
        if self.st.numbers {
            match self.r.below(4) {
                0 if x == x.trunc() && x.abs() < 1e15 && !(x == 0. && x.is_sign_negative()) => return format!("{x:.0}"),
                1 => return format!("{x:e}"),
                2 => return format!("{x:E}"),
                3 if x == x.trunc() && x.abs() < 1e15 => return format!("{x:.3}"),
                _ => {}
            }
        }
        format!("{x:?}")
    }
    fn ws(&mut self) -> String {
        if self.st.inflate.0 > 0. && self.r.p(self.st.inflate.0) {
            let n = self.r.int(100, self.st.inflate.1);
            let c = self.r.pick(&[" ", "\n", "\t", "\r\n"]);
            c.repeat(n)
        } else if self.st.pretty {
            self.r.pick(&["", "", "", "", "", "", "", " ", " ", "\n", "\t", "\r\n  "]).into()
        } else {
            String::new()
        }
    }
    /// A string in quotes.
    fn str(&mut self, x: &str) -> String {
        let mut s = String::from("\"");
        for c in x.chars() {
            if self.st.escape > 0. && self.r.p(self.st.escape) {
                match self.r.p(0.5) {
                    true => write!(s, "\\u{:04x}", c as u32).unwrap(),
                    false => write!(s, "\\u{:04X}", c as u32).unwrap(),
                }
            } else {
                s.push(c);
            }
        }
        s + "\""
    }
    fn list(&mut self, v: Vec<String>) -> String {
        let mut s = String::from("[");
        for (i, x) in v.into_iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s += &self.ws();
            s += &x;
            s += &self.ws();
        }
        s.push(']');
        s
    }
    fn nums(&mut self, v: &[f64]) -> String {
        let l = v.iter().map(|x| self.num(*x)).collect();
        self.list(l)
    }
    fn obj(&mut self, mut v: Vec<(&str, Option<String>)>) -> String {
        if self.st.shuffle {
            self.r.shuffle(&mut v);
        }
        let mut s = String::from("{");
        let mut first = true;
        for (k, x) in v {
            let x = match x {
                Some(x) => x,
                None => {
                    if !self.r.p(self.st.null) {
                        continue;
                    }
                    "null".into()
                }
            };
            if !first {
                s.push(',');
            }
            first = false;
            let (a, b, c) = (self.ws(), self.ws(), self.ws());
            let k = self.str(k);
            write!(s, "{a}{k}{b}:{c}{x}").unwrap();
            s += &self.ws();
        }
        s.push('}');
        s
    }
    fn table(&mut self, t: &Table) -> String {
        fn data(w: &mut W, t: &Table, d: usize, off: usize) -> String {
            let n = t.axes[d].1.len();
            let stride: usize = t.axes[d + 1..].iter().map(|a| a.1.len()).product();
            let l = (0..n)
                .map(|i| {
                    if d + 1 == t.axes.len() {
                        let x = t.data[off + i];
                        w.num(x)
                    } else {
                        data(w, t, d + 1, off + i * stride)
                    }
                })
                .collect();
            w.list(l)
        }
        let mut v: Vec<(&str, Option<String>)> = vec![];
        for (i, (var, nodes)) in t.axes.iter().enumerate() {
            let n = self.nums(nodes);
            let name = self.str(vname(*var));
            let l = self.list(vec![name, n]);
            v.push((["x", "y", "z"][i], Some(l)));
        }
        let d = data(self, t, 0, 0);
        v.push(("data", Some(d)));
        if t.interp {
            v.push(("interpolator", Some("\"linear\"".into())));
        }
        self.obj(v)
    }
    fn planet(&mut self, p: &Planet) -> String {
        match p {
            Planet::Spherical => self.str("spherical"),
            Planet::Fisher => {
                let n = self.r.pick(&["fisher1960", "fisher_1960"]);
                self.str(n)
            }
            Planet::Smithsonian => self.str("smithsonian"),
            Planet::Custom { re, rp, g, rate } => {
                let (a, b, c, d) = (self.num(*re), self.num(*rp), self.nums(g), self.num(*rate));
                let o = self.obj(vec![
                    ("equatorial_radius", Some(a)),
                    ("polar_radius", Some(b)),
                    ("gravitational_parameters", Some(c)),
                    ("rotation_rate", Some(d)),
                ]);
                let k = self.str("custom");
                format!("{{{k}:{o}}}")
            }
        }
    }
    fn opt(&mut self, x: Option<f64>) -> Option<String> {
        x.map(|x| self.num(x))
    }
    fn phase(&mut self, p: &PhaseCfg) -> String {
        let mut o: Vec<(&str, Option<String>)> = vec![];
        let init = p.init.as_ref().map(|i| {
            let v = vec![
                ("latitude", Some(self.num(i.lat))),
                ("longitude", Some(self.num(i.long))),
                ("azimuth", Some(self.num(i.az))),
                ("altitude", Some(self.num(i.alt))),
            ];
            self.obj(v)
        });
        o.push(("init", init));
        let veh = p.vehicle.as_ref().map(|v| {
            let engines = v.engines.as_ref().map(|es| {
                let l = es
                    .iter()
                    .map(|e| {
                        let x = vec![
                            ("incidence", Some(self.nums(&e.incidence))),
                            ("thrust_vac", Some(self.num(e.thrust))),
                            ("isp_vac", Some(self.num(e.isp))),
                            ("exit_area", Some(self.num(e.area))),
                        ];
                        self.obj(x)
                    })
                    .collect();
                self.list(l)
            });
            let x = vec![
                ("structure_mass", self.opt(v.structure)),
                ("propellant_mass", self.opt(v.propellant)),
                ("reference_area", self.opt(v.area)),
                ("drag_coeff", v.drag.as_ref().map(|t| self.table(t))),
                ("lift_coeff", v.lift.as_ref().map(|t| self.table(t))),
                ("side_force_coeff", v.side.as_ref().map(|t| self.table(t))),
                ("engines", engines),
            ];
            self.obj(x)
        });
        o.push(("vehicle", veh));
        let st = p.steering.as_ref().map(|s| {
            let mut v = vec![];
            for (i, k) in ["roll", "yaw", "pitch"].into_iter().enumerate() {
                let x = s[i].map(|(var, c)| {
                    let n = self.nums(&c);
                    let v = self.str(vname(var));
                    self.list(vec![v, n])
                });
                v.push((k, x));
            }
            self.obj(v)
        });
        o.push(("steering", st));
        o.push(("planet_model", p.planet.as_ref().map(|p| self.planet(p))));
        let atm = p.atmosphere.as_ref().map(|(e, w)| {
            let w = w.map(|w| self.nums(&w));
            self.obj(vec![("enabled", e.map(|e| e.to_string())), ("wind", w)])
        });
        o.push(("atmosphere", atm));
        o.push(("max_acceleration", self.opt(p.max_acc)));
        o.push(("stepsize", self.opt(p.stepsize)));
        let end = p.end.map(|(v, t)| {
            let n = self.num(t);
            let v = self.str(vname(v));
            self.list(vec![v, n])
        });
        o.push(("end_criterion", end));
        self.obj(o)
    }
}

impl Mission {
    pub fn json(&self, style: &Style, r: &mut Rng) -> String {
        let mut w = W { st: style, r: Rng::new(r.next()) };
        let l = self.phases.iter().map(|p| w.phase(p)).collect();
        w.list(l)
    }
    pub fn plain(&self) -> String {
        self.json(&PLAIN, &mut Rng::new(0))
    }
    pub fn effs(&self) -> Vec<Eff> {
        let mut e = Eff::default();
        self.phases
            .iter()
            .map(|p| {
                e.apply(p);
                e.clone()
            })
            .collect()
    }
}

// ---------------------------------------------------------------- physics

/// Distance of the surface from the center, at the geocentric latitude with this sine.
pub fn surface_radius(p: &PlanetP, sin_lat: f64) -> f64 {
    // Ellipse: (r cos/re)^2 + (r sin/rp)^2 = 1
    let c2 = (1. - sin_lat * sin_lat).max(0.);
    1. / (c2 / (p.re * p.re) + sin_lat * sin_lat / (p.rp * p.rp)).sqrt()
}

pub fn altitude(p: &PlanetP, pos: V3) -> f64 {
    let r = norm(pos);
    r - surface_radius(p, pos[2] / r)
}

pub fn geopotential(p: &PlanetP, alt: f64) -> f64 {
    let r = 0.5 * (p.re + p.rp);
    r * alt / (r + alt)
}

/// Gravitational acceleration as gradient of the potential
/// mu/r (1 - sum J_n (re/r)^n P_n(sin lat)), in radial and northward direction.
pub fn gravity(p: &PlanetP, pos: V3) -> V3 {
    let r = norm(pos);
    let up = scale(pos, 1. / r);
    let s = up[2];
    // Legendre polynomials and their derivatives
    let leg = [
        (1.5 * s * s - 0.5, 3. * s),
        (2.5 * s * s * s - 1.5 * s, 7.5 * s * s - 1.5),
        ((35. * s.powi(4) - 30. * s * s + 3.) / 8., (140. * s.powi(3) - 60. * s) / 8.),
    ];
    let mut radial = 1.;
    let mut north = 0.;
    for (i, (pn, dpn)) in leg.iter().enumerate() {
        let n = i as i32 + 2;
        let f = p.j[i] * (p.re / r).powi(n);
        radial -= (n + 1) as f64 * f * pn;
        north -= f * dpn;
    }
    let k = p.mu / (r * r);
    // grad(sin lat) = (z - s up) / r
    let gs = [-s * up[0], -s * up[1], 1. - s * s];
    [
        k * (north * gs[0] - radial * up[0]),
        k * (north * gs[1] - radial * up[1]),
        k * (north * gs[2] - radial * up[2]),
    ]
}

/// 1962 U.S. standard atmosphere: base altitude (ft), base pressure (lb/ft^2),
/// base temperature (R), temperature gradient (R/ft).
pub const ATMOS: [(f64, f64, f64, f64); 22] = [
    (0.0, 0.21162166e4, 518.67, -0.35661600e-2),
    (36_089.239, 0.47268050e3, 389.97, 0.0),
    (65_616.797, 0.11434543e3, 389.97, 0.54863995e-3),
    (104_986.87, 0.18128948e2, 411.57, 0.15361920e-2),
    (154_199.48, 0.23163263e1, 487.17, 0.0),
    (170_603.68, 0.12322603e1, 487.17, -0.10972801e-2),
    (200_131.23, 0.38032532e0, 454.77, -0.21945600e-2),
    (259_186.35, 0.21673064e-1, 325.17, 0.0),
    (291_151.57, 0.34333824e-2, 325.17, 0.16953850e-2),
    (323_002.74, 0.62814785e-3, 379.17, 0.28345707e-2),
    (354_753.59, 0.15361733e-3, 469.17, 0.56867005e-2),
    (386_406.39, 0.52676024e-4, 649.17, 0.11443751e-1),
    (480_781.04, 0.10586108e-4, 1_729.17, 0.86358208e-2),
    (512_046.16, 0.77263469e-5, 1_999.17, 0.57749093e-2),
    (543_215.48, 0.58405376e-5, 2_179.17, 0.40610461e-2),
    (605_268.45, 0.35246030e-5, 2_431.17, 0.29274135e-2),
    (728_243.91, 0.14559124e-5, 2_791.17, 0.23812804e-2),
    (939_894.74, 0.39418091e-6, 3_295.17, 0.20152600e-2),
    (1_234_645.7, 0.84380249e-7, 3_889.17, 0.16354849e-2),
    (1_520_799.4, 0.22945543e-7, 4_357.17, 0.11010085e-2),
    (1_798_726.4, 0.72259271e-8, 4_663.17, 0.73319725e-3),
    (2_068_776.5, 0.24958752e-8, 4_861.17, 0.0),
];
pub const R_AIR: f64 = 8314.32 / 28.9644;
pub const G0: f64 = 9.80665;
const PSF: f64 = 0.4535924 * 9.80665 / (FT * FT);

pub fn layer(altg: f64) -> usize {
    (1..ATMOS.len()).take_while(|&i| altg >= ATMOS[i].0 * FT).count()
}

/// Temperature and pressure at a geopotential altitude, calculated from a given layer.
pub fn atmosphere_in(altg: f64, layer: usize) -> (f64, f64) {
    let (hb, pb, tb, lb) = ATMOS[layer];
    let (hb, pb, tb, lb) = (hb * FT, pb * PSF, tb / 1.8, lb / 1.8 / FT);
    let dh = altg - hb;
    let t = tb + lb * dh;
    let p = if lb == 0. {
        pb * (-G0 * dh / (R_AIR * tb)).exp()
    } else {
        pb * (-G0 / (R_AIR * lb) * (t / tb).ln()).exp()
    };
    (t, p)
}

/// Distance in m to the closest layer boundary.
pub fn boundary_distance(altg: f64) -> f64 {
    ATMOS.iter().skip(1).map(|l| (l.0 * FT - altg).abs()).fold(f64::INFINITY, f64::min)
}

/// Body axes in the inertial frame. `launch` is latitude (geocentric), longitude, azimuth.
pub fn body_axes(launch: V3, euler: V3) -> [V3; 3] {
    let (slat, clat) = launch[0].sin_cos();
    let (slon, clon) = launch[1].sin_cos();
    let (saz, caz) = launch[2].sin_cos();
    let up = [clat * clon, clat * slon, slat];
    let east = [-slon, clon, 0.];
    let north = [-slat * clon, -slat * slon, clat];
    // Launch frame: x up, z downrange (azimuth from north over east), y completes it
    let lx = up;
    let lz = add(scale(north, caz), scale(east, saz));
    let ly = cross(lz, lx);
    // Rotate by roll around x, then yaw around z, then pitch around y
    let (sr, cr) = euler[0].sin_cos();
    let (sy, cy) = euler[1].sin_cos();
    let (sp, cp) = euler[2].sin_cos();
    // Coordinates of a launch frame vector after the roll: axes of the rolled frame
    let rx = lx;
    let ry = add(scale(ly, cr), scale(lz, sr));
    let rz = add(scale(ly, -sr), scale(lz, cr));
    // Yaw
    let yx = add(scale(rx, cy), scale(ry, sy));
    let yy = add(scale(rx, -sy), scale(ry, cy));
    let yz = rz;
    // Pitch
    let px = add(scale(yx, cp), scale(yz, -sp));
    let py = yy;
    let pz = add(scale(yx, sp), scale(yz, cp));
    [px, py, pz]
}

pub fn to_body(axes: &[V3; 3], v: V3) -> V3 {
    [dot(axes[0], v), dot(axes[1], v), dot(axes[2], v)]
}
pub fn from_body(axes: &[V3; 3], v: V3) -> V3 {
    add(add(scale(axes[0], v[0]), scale(axes[1], v[1])), scale(axes[2], v[2]))
}

/// Angle of attack of a velocity in the body frame. The flag tells that the
/// value depends on rounding.
pub fn alpha(b: V3, vmag: f64) -> (f64, bool) {
    let tol = 1e-12 * (1. + vmag);
    let ill = (b[0] - 1e-6).abs() < tol || (b[0] < 1e-6 + tol && (b[2].abs() - 1e-6).abs() < tol);
    let a = if b[0] < 1e-6 {
        if b[2].abs() < 1e-6 {
            0.
        } else if b[2] > 0. {
            PI / 2.
        } else {
            -PI / 2.
        }
    } else {
        b[2].atan2(b[0])
    };
    (a, ill)
}

/// Aerodynamic force, and a bound for the effect of rounding on it.
pub fn aero(eff: &Eff, s: &S) -> (V3, f64) {
    let co = |t: &Table| {
        let (c, m) = t.eval(s);
        if c.is_nan() {
            (0., 0.)
        } else {
            (c, m + 1e-13 * c.abs())
        }
    };
    let (cd, md) = co(&eff.drag);
    let (cl, ml) = co(&eff.lift);
    let (cy, my) = co(&eff.side);
    let (sa, ca) = s.alpha.sin_cos();
    let f = s.q * eff.area;
    let mut v = [-f * (ca * cd - sa * cl), f * cy, -f * (sa * cd + ca * cl)];
    for x in v.iter_mut() {
        if x.is_nan() {
            *x = 0.;
        }
    }
    let err = f.abs() * (md + ml + my);
    (v, if err.is_nan() { 0. } else { err })
}

/// Thrust of all engines at full throttle.
pub fn full_thrust(engines: &[Engine], pres: f64) -> V3 {
    engines.iter().fold([0.; 3], |a, e| {
        let (sp, cp) = e.incidence[0].sin_cos();
        let (sy, cy) = e.incidence[1].sin_cos();
        add(a, scale([cy * cp, sy, cy * sp], e.thrust - e.area * pres))
    })
}

/// Size of the mass flows, for tolerances.
pub fn flow_size(engines: &[Engine]) -> f64 {
    engines.iter().map(|e| if e.thrust == 0. { 0. } else { (e.thrust / (e.isp * G0)).abs() }).sum()
}

pub fn full_flow(engines: &[Engine]) -> f64 {
    engines.iter().map(|e| if e.thrust == 0. { 0. } else { e.thrust / (e.isp * G0) }).sum()
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Thr {
    /// No limit is effective or there is no thrust.
    Full,
    /// Throttled to this value to reach the limit exactly.
    Limited(f64),
    /// The limit cannot be kept.
    Impossible,
    /// Depends on rounding.
    Ill,
}

/// The throttle which keeps |aero + throttle*thrust| <= max force.
pub fn throttle(max_force: f64, aero: V3, thrust: V3) -> Thr {
    let t = norm(thrust);
    if t == 0. || max_force == f64::INFINITY {
        return if norm(aero) > max_force * 1.001 {
            Thr::Impossible
        } else if norm(aero) > max_force * 1.000999 {
            Thr::Ill
        } else {
            Thr::Full
        };
    }
    let b = norm(aero);
    let a = max_force;
    if !(t.is_finite() && b.is_finite()) {
        return Thr::Ill;
    }
    let dir = scale(thrust, 1. / t);
    let along = dot(aero, dir);
    if (b / a - 1.).abs() < 1e-6 {
        return Thr::Ill;
    }
    // |aero + s dir|^2 = a^2
    let disc = along * along - (b * b - a * a);
    if b < a {
        let s = -along + disc.max(0.).sqrt();
        return if s >= t { Thr::Full } else { Thr::Limited(s / t) };
    }
    if disc.abs() < 1e-6 * b * b {
        return Thr::Ill;
    }
    if disc < 0. || along > 0. {
        // Never below the limit: no throttle setting helps, except if the
        // small excess which is tolerated is enough
        let lowest = if along > 0. { b } else { (b * b - along * along).max(0.).sqrt() };
        return if lowest < 1.0011 * a { Thr::Ill } else { Thr::Impossible };
    }
    let s = -along - disc.sqrt();
    if s <= t * (1. - 1e-7) {
        Thr::Limited(s / t)
    } else {
        // Full thrust is not enough to get below the limit
        let acc = norm(add(aero, thrust));
        if acc > 1.0011 * a {
            Thr::Impossible
        } else {
            Thr::Ill
        }
    }
}

pub fn vel_planet(p: &PlanetP, pos: V3, vel: V3) -> V3 {
    [vel[0] + p.rate * pos[1], vel[1] - p.rate * pos[0], vel[2]]
}

pub fn pos_planet(p: &PlanetP, time: f64, pos: V3) -> V3 {
    let (s, c) = (p.rate * time).sin_cos();
    [c * pos[0] + s * pos[1], c * pos[1] - s * pos[0], pos[2]]
}

/// What is needed besides the parameters.
#[derive(Clone, Debug)]
pub struct Env {
    pub eff: Eff,
    pub launch: V3,
    /// Euler angles at the start of the phase in rad.
    pub c0: V3,
    /// Share of the rounding error of the throttle which is applied.
    pub noise: f64,
}

/// Relative rounding error of the throttle by the documented formula, which
/// divides by the sine of the angle between the air forces and the thrust.
pub fn throttle_noise(aero: V3, full: V3) -> f64 {
    let sin = norm(cross(aero, full)) / (norm(aero) * norm(full));
    if sin > 0. {
        1e-15 / sin.max(1e-8)
    } else {
        0.
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Flags {
    /// Some result depends on rounding.
    pub ill: bool,
    /// The vehicle is throttled.
    pub limited: bool,
    /// Maximum acceleration cannot be kept.
    pub impossible: bool,
}

impl Flags {
    pub fn or(&mut self, o: Flags) {
        self.ill |= o.ill;
        self.limited |= o.limited;
        self.impossible |= o.impossible;
    }
}

/// Completes a state of which time, position, velocity and mass are set.
pub fn eval(env: &Env, time: f64, tse: f64, pos: V3, vel: V3, mass: f64) -> (S, Flags) {
    let eff = &env.eff;
    let pl = &eff.planet;
    let mut f = Flags::default();
    let mut s = S { time, tse, pos, vel, mass, ..Default::default() };
    // Nothing is promised for a vehicle without mass
    f.ill = !(mass > 0.);
    s.pos_planet = pos_planet(pl, time, pos);
    s.vel_planet = vel_planet(pl, pos, vel);
    s.alt = altitude(pl, pos);
    s.altg = geopotential(pl, s.alt);
    s.prop = mass - eff.structure;
    s.grav = gravity(pl, pos);
    s.vel_atm = sub(s.vel_planet, eff.wind);
    let v = norm(s.vel_atm);
    if eff.atm {
        if boundary_distance(s.altg) < 1e-6 {
            f.ill = true;
        }
        let (t, p) = atmosphere_in(s.altg, layer(s.altg));
        s.temp = t;
        s.pres = p;
        s.dens = p / (t * R_AIR);
        s.mach = v / (1.4 * R_AIR * t).sqrt();
        s.q = 0.5 * s.dens * v * v;
    } else {
        s.mach = v / 0.;
    }
    let mut e = [0.; 3];
    for i in 0..3 {
        let (var, c) = eff.steer[i];
        let y = vget(var, &s);
        e[i] = env.c0[i] + (c[0] * y + c[1] * y * y + c[2] * y * y * y) / 180. * PI;
    }
    s.euler = e;
    if e.iter().any(|x| !(x.abs() < 1e4)) {
        // Rounding of huge angles shows
        f.ill = true;
    }
    let axes = body_axes(env.launch, s.euler);
    let (a, ill) = alpha(to_body(&axes, s.vel_atm), v);
    s.alpha = a;
    // Without air, the angle of attack only matters if a table uses it (which then has no effect)
    f.ill |= ill && s.q * eff.area != 0.;
    s.aero = aero(eff, &s).0;
    let full = full_thrust(&eff.engines, s.pres);
    s.throttle = match throttle(eff.max_acc * mass, s.aero, full) {
        Thr::Full => 1.,
        Thr::Limited(x) => {
            f.limited = true;
            (x * (1. + env.noise * throttle_noise(s.aero, full))).clamp(0., 1.)
        }
        Thr::Impossible => {
            f.impossible = true;
            1.
        }
        Thr::Ill => {
            f.ill = true;
            1.
        }
    };
    s.thrust = scale(full, s.throttle);
    s.flow = -s.throttle * full_flow(&eff.engines);
    s.veh_acc = scale(add(s.aero, s.thrust), 1. / mass);
    s.acc = add(from_body(&axes, s.veh_acc), s.grav);
    if !(finite(s.acc) && s.flow.is_finite()) {
        f.ill = true;
    }
    (s, f)
}

/// One classical Runge-Kutta step. The flags are those of all evaluations.
pub fn rk4(env: &Env, s: &S, h: f64) -> (S, Flags) {
    let mut fl = Flags::default();
    let mut k: [[f64; 7]; 4] = [[0.; 7]; 4];
    let y0 = [s.pos[0], s.pos[1], s.pos[2], s.vel[0], s.vel[1], s.vel[2], s.mass];
    let c = [0., 0.5, 0.5, 1.];
    for i in 0..4 {
        let mut y = y0;
        if i > 0 {
            for j in 0..7 {
                y[j] += c[i] * h * k[i - 1][j];
            }
        }
        let (e, f) = eval(env, s.time + c[i] * h, s.tse + c[i] * h, [y[0], y[1], y[2]], [y[3], y[4], y[5]], y[6]);
        fl.or(f);
        // A step which is far too long amplifies rounding
        let a0 = if i == 0 { e.acc } else { [k[0][3], k[0][4], k[0][5]] };
        let (v, a) = (norm(e.vel_atm), norm(e.acc));
        if !(dist(e.acc, a0) * h.abs() <= v + 30.) || !(v <= 1e6) || !(a * h.abs() <= 10. * v + 300.) {
            fl.ill = true;
        }
        k[i] = [y[3], y[4], y[5], e.acc[0], e.acc[1], e.acc[2], e.flow];
    }
    let mut y = y0;
    for j in 0..7 {
        y[j] += h / 6. * (k[0][j] + 2. * (k[1][j] + k[2][j]) + k[3][j]);
    }
    let (n, f) = eval(env, s.time + h, s.tse + h, [y[0], y[1], y[2]], [y[3], y[4], y[5]], y[6]);
    fl.or(f);
    (n, fl)
}

/// How far rounding in the state before a step moves position, velocity and mass after it.
pub fn amplification(env: &Env, s: &S, h: f64, n: &S) -> (f64, f64, f64) {
    const E: f64 = 3e-14;
    let mut t = *s;
    let mut v = env.clone();
    for (i, w) in [0.4, -0.7, 0.6].into_iter().enumerate() {
        t.pos[i] += E * w * norm(s.pos);
        t.vel[i] -= E * w * norm(s.vel);
        v.c0[i] += E * w * (1. + s.euler[i].abs());
    }
    t.mass *= 1. + E;
    t.time *= 1. - E;
    t.tse *= 1. - E;
    let (m, _) = rk4(&v, &t, h);
    (dist(m.pos, n.pos), dist(m.vel, n.vel), (m.mass - n.mass).abs())
}

/// Geocentric latitude of the surface point whose normal has this geodetic latitude.
pub fn geocentric(p: &PlanetP, lat: f64) -> f64 {
    // Surface point of the ellipse with normal (cos, sin): (re^2 cos, rp^2 sin) / w
    (p.rp * p.rp * lat.sin()).atan2(p.re * p.re * lat.cos())
}

pub fn launch_frame(p: &PlanetP, i: &Init) -> V3 {
    let rad = |d: f64| d / 180. * PI;
    [geocentric(p, rad(i.lat)), rad(i.long), rad(i.az)]
}

pub fn initial(p: &PlanetP, i: &Init) -> (V3, V3) {
    let l = launch_frame(p, i);
    let r = surface_radius(p, l[0].sin()) + i.alt;
    let pos = [r * l[0].cos() * l[1].cos(), r * l[0].cos() * l[1].sin(), r * l[0].sin()];
    (pos, [-p.rate * pos[1], p.rate * pos[0], 0.])
}

// ---------------------------------------------------------------- missions

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// The maximum acceleration cannot be kept.
    MaxAcc,
    /// The target could not be hit.
    NoCrossing,
    /// Too many steps.
    Budget,
    /// Something is not finite, or masses are not positive.
    Bad,
}

#[derive(Clone, Debug)]
pub struct MPhase {
    pub env: Env,
    pub start: S,
    /// State after each attempted step.
    pub steps: Vec<S>,
    pub tries: usize,
    pub flags: Flags,
    /// How far the end moves with a slightly different start: time, position, velocity.
    pub spread: [f64; 3],
    /// Distance to the target after each try.
    pub misses: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct MRun {
    pub phases: Vec<MPhase>,
    pub end: End,
    pub steps: usize,
}

impl MRun {
    pub fn ill(&self) -> bool {
        self.phases.iter().any(|p| p.flags.ill)
    }
    pub fn spread(&self) -> [f64; 3] {
        let mut m = [0.; 3];
        for p in &self.phases {
            for i in 0..3 {
                m[i] = p.spread[i].max(m[i]);
            }
        }
        m
    }
    pub fn limited(&self) -> bool {
        self.phases.iter().any(|p| p.flags.limited)
    }
    pub fn last(&self) -> Option<&S> {
        self.phases.last().map(|p| p.steps.last().unwrap_or(&p.start))
    }
}

fn bad(s: &S) -> bool {
    !(finite(s.pos) && finite(s.vel) && finite(s.acc) && s.mass.is_finite() && s.mass > 0.)
}

/// State carried from phase to phase.
#[derive(Clone, Debug)]
pub struct Carry {
    pub eff: Eff,
    pub launch: V3,
    pub s: S,
    /// Like `s`, but from a slightly different start: where the two part, rounding decides.
    pub twin: S,
}

/// Relative change of the start of the twin.
const NUDGE: f64 = 1e-12;

impl Carry {
    pub fn new() -> Carry {
        Carry { eff: Eff::default(), launch: [0.; 3], s: S::default(), twin: S::default() }
    }
    /// Flies a phase. Sets the flag if the outcome depends on rounding.
    pub fn fly(&mut self, c: &PhaseCfg, first: bool, max: usize) -> (MPhase, End) {
        let mut other = self.clone();
        let (env, s, f) = self.start(c, first);
        let (mut ph, end) = run_phase(&env, s, f, max);
        self.s = *ph.steps.last().unwrap_or(&ph.start);
        if end != End::Done || ph.flags.ill {
            return (ph, end);
        }
        other.s = other.twin;
        let (mut env2, mut t, _) = other.start(c, first);
        env2.noise = 1.;
        if first {
            let (r, v) = (norm(t.pos), norm(t.vel) + 1.);
            for (i, w) in [0.3, -0.7, 0.6].into_iter().enumerate() {
                t.pos[i] += NUDGE * r * w;
                t.vel[i] -= NUDGE * v * w;
                env2.c0[i] += NUDGE * w;
            }
            t.mass *= 1. + NUDGE;
            t = eval(&env2, t.time, t.tse, t.pos, t.vel, t.mass).0;
        }
        let (ph2, end2) = run_phase(&env2, t, Flags::default(), max);
        self.twin = *ph2.steps.last().unwrap_or(&ph2.start);
        let (a, b) = (&self.s, &self.twin);
        let gap = |a: V3, b: V3| dist(a, b) / (norm(a) + 1.);
        let far = end2 != End::Done
            || ph2.steps.len() != ph.steps.len()
            || ph2.tries != ph.tries
            || !(gap(a.pos, b.pos) < 1e-8 && gap(a.vel, b.vel) < 1e-6 && gap(a.euler, b.euler) < 1e-6)
            || !((a.mass - b.mass).abs() < 1e-7 * a.mass);
        // A target which is hit or not by the errors added up over the phases
        let close = |(a, b): (&f64, &f64)| (a.abs() - 1e-3).abs() < 30. * (a - b).abs();
        if far || ph.misses.iter().zip(&ph2.misses).any(close) {
            ph.flags.ill = true;
        }
        ph.misses = vec![];
        ph.spread = [(a.time - b.time).abs(), dist(a.pos, b.pos), dist(a.vel, b.vel)];
        (ph, end)
    }
    /// Starts a phase: updates parameters, and returns the environment and first state.
    pub fn start(&mut self, c: &PhaseCfg, first: bool) -> (Env, S, Flags) {
        self.eff.apply(c);
        self.s.mass = start_mass(c, &self.eff, self.s.prop, self.s.mass);
        if first {
            let i = c.init.as_ref().expect("first phase needs init");
            self.launch = launch_frame(&self.eff.planet, i);
            let (p, v) = initial(&self.eff.planet, i);
            self.s.pos = p;
            self.s.vel = v;
        }
        let env = Env { eff: self.eff.clone(), launch: self.launch, c0: self.s.euler, noise: 0. };
        let (s, f) = eval(&env, self.s.time, 0., self.s.pos, self.s.vel, self.s.mass);
        (env, s, f)
    }
}

/// Runs a phase from its start until it ends or `max` steps were tried.
pub fn run_phase(env: &Env, start: S, f0: Flags, max: usize) -> (MPhase, End) {
    let mut ph = MPhase { env: env.clone(), start, steps: vec![], tries: 0, flags: f0, spread: [0.; 3], misses: vec![] };
    if f0.impossible {
        return (ph, End::MaxAcc);
    }
    if bad(&start) {
        return (ph, End::Bad);
    }
    let (var, target) = env.eff.end;
    let by_throttle =
        ["thrust", "vehicle_acc", "acceleration", "massflow", "throttle"].iter().any(|n| vname(var).starts_with(n));
    let mut h = env.eff.stepsize;
    let mut s = start;
    // Until when the target must be passed again
    let mut until = f64::NEG_INFINITY;
    loop {
        // Long flights which are not judged need not be flown to the end
        if ph.steps.len() >= max || (ph.flags.ill && max > 50_000) {
            return (ph, End::Budget);
        }
        let (n, f) = rk4(env, &s, h);
        ph.flags.or(f);
        if f.limited && by_throttle {
            let full = full_thrust(&env.eff.engines, n.pres);
            let y = vget(var, &n).abs().max(norm(n.thrust) / n.mass).max(if vname(var).starts_with("thrust") { norm(n.thrust) } else { 0. });
            // The target may be lost in rounding
            ph.flags.ill |= throttle_noise(n.aero, full) * y > 1e-4;
        }
        if f.impossible {
            return (ph, End::MaxAcc);
        }
        if bad(&n) {
            return (ph, End::Bad);
        }
        let (y0, y1) = (vget(var, &s) - target, vget(var, &n) - target);
        ph.misses.push(y1);
        // Decisions which depend on rounding
        let eps = 1e-12 * (target.abs() + vget(var, &n).abs()) + 1e-10;
        if (y1.abs() - 1e-3).abs() < eps || (y0.abs() - 1e-3).abs() < eps {
            ph.flags.ill = true;
        }
        if y1.abs() < 1e-3 {
            ph.steps.push(n);
            return (ph, End::Done);
        } else if y0.abs() < 1e-3 {
            ph.steps.push(s);
            return (ph, End::Done);
        } else if y0 * y1 < 0. {
            if ph.tries > 20 {
                return (ph, End::NoCrossing);
            }
            h *= y0 / (y0 - y1);
            ph.tries += 1;
            until = n.time;
            // Close to giving up
            ph.flags.ill |= ph.tries > 14;
            ph.steps.push(s);
        } else {
            if n.time <= s.time {
                // Would go on forever
                return (ph, End::NoCrossing);
            }
            ph.flags.ill |= (n.time - until).abs() < 1e-9 * h + 1e-15 * n.time;
            if n.time > until {
                // It was not, so the search starts anew
                h = env.eff.stepsize;
            }
            s = n;
            ph.steps.push(n);
        }
    }
}

pub fn run(m: &Mission, max: usize) -> MRun {
    let mut out = MRun { phases: vec![], end: End::Done, steps: 0 };
    let mut c = Carry::new();
    for (i, p) in m.phases.iter().enumerate() {
        let (ph, end) = c.fly(p, i == 0, max.saturating_sub(out.steps));
        out.steps += ph.steps.len();
        out.phases.push(ph);
        if end != End::Done {
            out.end = end;
            break;
        }
    }
    out
}
