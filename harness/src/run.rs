//! Runs missions in the real code and records what happens.

use crate::model::S;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;
use std::path::{Path, PathBuf};
use std::rc::Rc;

macro_rules! copy_state {
    ($s:expr) => {{
        let s = $s;
        S {
            time: s.time,
            tse: s.time_since_event,
            pos: [s.position[0], s.position[1], s.position[2]],
            pos_planet: [s.position_planet[0], s.position_planet[1], s.position_planet[2]],
            alt: s.altitude,
            altg: s.altitude_geopotential,
            vel: [s.velocity[0], s.velocity[1], s.velocity[2]],
            vel_planet: [s.velocity_planet[0], s.velocity_planet[1], s.velocity_planet[2]],
            vel_atm: [s.velocity_atmosphere[0], s.velocity_atmosphere[1], s.velocity_atmosphere[2]],
            acc: [s.acceleration[0], s.acceleration[1], s.acceleration[2]],
            thrust: [s.thrust_force_body[0], s.thrust_force_body[1], s.thrust_force_body[2]],
            aero: [s.aero_force_body[0], s.aero_force_body[1], s.aero_force_body[2]],
            veh_acc: [
                s.vehicle_acceleration_body[0],
                s.vehicle_acceleration_body[1],
                s.vehicle_acceleration_body[2],
            ],
            grav: [s.gravity_acceleration[0], s.gravity_acceleration[1], s.gravity_acceleration[2]],
            mass: s.mass,
            prop: s.propellant_mass,
            flow: s.massflow,
            temp: s.temperature,
            pres: s.pressure,
            dens: s.density,
            mach: s.mach_number,
            q: s.dynamic_pressure,
            alpha: s.alpha,
            euler: [s.euler_angles[0], s.euler_angles[1], s.euler_angles[2]],
            throttle: s.throttle,
        }
    }};
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Done,
    LoadErr(String),
    Panic(String),
    /// More steps than allowed.
    Budget,
}

#[derive(Clone, Debug, Default)]
pub struct PTrace {
    pub start: S,
    /// State after each attempted step, and whether it ended the phase.
    pub steps: Vec<(S, bool)>,
    /// Results of the equations of motion, at the start and during steps.
    pub evals: Vec<S>,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub phases: Vec<PTrace>,
    /// Evaluations after the last complete step.
    pub pending: Vec<S>,
    pub out: Out,
    /// The returned state.
    pub last: Option<S>,
}

impl Trace {
    pub fn steps(&self) -> usize {
        self.phases.iter().map(|p| p.steps.len()).sum()
    }
    pub fn bits(&self) -> Vec<u64> {
        let mut v = vec![];
        for p in &self.phases {
            v.extend(p.start.bits());
            for (s, e) in &p.steps {
                v.extend(s.bits());
                v.push(*e as u64);
            }
        }
        if let Some(s) = &self.last {
            v.extend(s.bits());
        }
        v
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
}

const BUDGET: &str = "step budget of the monitor is used up";

/// Keeps panics of monitored runs quiet, but notes their message.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!(" ({}:{})", l.file(), l.line())).unwrap_or_default();
            MESSAGE.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
        } else {
            old(info)
        }
    }));
}

/// How many calls of the code under test are active, and a number which changes
/// whenever something is heard of them.
static BUSY: AtomicU64 = AtomicU64::new(0);
static BEATS: AtomicU64 = AtomicU64::new(0);

/// The exit status of a process in which the code under test is frozen.
pub const FROZEN: i32 = 67;

/// Ends this process if the code under test is active, but is not heard of for
/// a long time. The time is counted in wake-ups, so that a machine which is busy
/// with something else does not count.
pub fn watch() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut silent = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let beats = BEATS.load(Relaxed);
            silent = if BUSY.load(Relaxed) > 0 && beats == last { silent + 1 } else { 0 };
            last = beats;
            if silent > if hooked() { 30 * 4 } else { 100 * 4 } {
                std::process::exit(FROZEN)
            }
        }
    });
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    BUSY.fetch_add(1, Relaxed);
    BEATS.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    BEATS.fetch_add(1, Relaxed);
    BUSY.fetch_sub(1, Relaxed);
    QUIET.with(|q| q.set(false));
    r.map_err(|_| MESSAGE.with(|m| m.borrow().clone()))
}

/// A scratch directory for configuration files.
pub struct Scratch {
    pub dir: PathBuf,
    n: Cell<u64>,
}

impl Scratch {
    pub fn new(dir: &Path) -> Scratch {
        std::fs::create_dir_all(dir).unwrap();
        Scratch { dir: dir.to_path_buf(), n: Cell::new(0) }
    }
    pub fn write(&self, text: &[u8]) -> PathBuf {
        // Reuse a few names
        self.n.set((self.n.get() + 1) % 64);
        let p = self.dir.join(format!("{}-{:?}.json", self.n.get(), std::thread::current().id()));
        std::fs::write(&p, text).unwrap();
        p
    }
}

/// Tries to load a configuration.
pub fn load(path: &Path) -> Result<sim::Simulation, Out> {
    match guarded(|| sim::Simulation::from_file(path).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(Out::LoadErr(e)),
        Err(p) => Err(Out::Panic(p)),
    }
}

#[cfg(post_monitor)]
const BUILT_HOOKED: bool = true;
#[cfg(not(post_monitor))]
const BUILT_HOOKED: bool = false;

static HOOK_WORKS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

/// Whether the hook tells all it should.
pub fn hooked() -> bool {
    BUILT_HOOKED && *HOOK_WORKS.get().unwrap_or(&true)
}

static TELLS_DISCARDED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

/// Whether the hook also tells of discarded steps.
pub fn tells_discarded() -> bool {
    hooked() && *TELLS_DISCARDED.get().unwrap_or(&true)
}

/// Does without the hook.
pub fn give_up_hook() {
    HOOK_WORKS.set(false).ok();
}

/// Runs a simple mission to see if the hook reports anything.
pub fn try_hook(sc: &Scratch) {
    if !BUILT_HOOKED {
        return;
    }
    let text = r#"[{"init":{"latitude":0,"longitude":0,"azimuth":0,"altitude":1000000},"vehicle":{"structure_mass":1},
        "stepsize":1,"end_criterion":["time_since_event",2.5]}]"#;
    let t = run_text(sc, text, 1000, true);
    let consistent = |p: &PTrace| {
        let (Some((s, true)), Some(last)) = (p.steps.last(), t.last) else { return false };
        !p.evals.is_empty() && p.start.time == 0. && s.bits() == last.bits()
    };
    let ok = t.out != Out::Done || t.phases.len() == 1 && consistent(&t.phases[0]);
    HOOK_WORKS.set(ok).ok();
    let discarded = t.phases.first().is_some_and(|p| p.steps.windows(2).any(|w| w[0].0.time == w[1].0.time));
    TELLS_DISCARDED.set(t.out != Out::Done || discarded).ok();
}

/// Runs a loaded simulation, recording at most `budget` steps.
#[cfg(post_monitor)]
pub fn run_sim(sim: &sim::Simulation, budget: usize, keep_evals: bool) -> Trace {
    use sim::monitor::{observe, Event};
    let rec = Rc::new(RefCell::new(Trace { phases: vec![], pending: vec![], out: Out::Done, last: None }));
    let r2 = rec.clone();
    let mut steps = 0;
    let mut evals = 0;
    let blind = !hooked();
    observe(Some(Box::new(move |e: &Event| {
        let mut t = r2.borrow_mut();
        BEATS.fetch_add(1, Relaxed);
        if blind {
            return;
        }
        match e {
            Event::Evaluated(s) => {
                evals += 1;
                if keep_evals {
                    t.pending.push(copy_state!(s));
                }
            }
            Event::PhaseStarted(s) => {
                let evals = std::mem::take(&mut t.pending);
                t.phases.push(PTrace { start: copy_state!(s), steps: vec![], evals });
            }
            Event::Stepped { state, ended } => {
                let ev = std::mem::take(&mut t.pending);
                let s = copy_state!(state);
                if let Some(p) = t.phases.last_mut() {
                    p.steps.push((s, *ended));
                    p.evals.extend(ev);
                }
                steps += 1;
            }
        }
        if steps > budget || evals > 40 * budget + 1000 {
            drop(t);
            panic!("{}", BUDGET);
        }
    })));
    let r = guarded(|| copy_state!(&sim.run()));
    observe(None);
    let mut t = match Rc::try_unwrap(rec) {
        Ok(t) => t.into_inner(),
        Err(rc) => rc.borrow().clone(),
    };
    match r {
        Ok(s) => t.last = Some(s),
        Err(m) if m.starts_with(BUDGET) => t.out = Out::Budget,
        Err(m) => t.out = Out::Panic(m),
    }
    t
}

/// Without the hook, only the final state is known.
#[cfg(not(post_monitor))]
pub fn run_sim(sim: &sim::Simulation, _budget: usize, _keep_evals: bool) -> Trace {
    let _ = Rc::new(BUDGET);
    let mut t = Trace { phases: vec![], pending: vec![], out: Out::Done, last: None };
    match guarded(|| copy_state!(&sim.run())) {
        Ok(s) => t.last = Some(s),
        Err(m) => t.out = Out::Panic(m),
    }
    t
}

pub fn run_text(sc: &Scratch, text: &str, budget: usize, keep_evals: bool) -> Trace {
    let p = sc.write(text.as_bytes());
    match load(&p) {
        Ok(sim) => run_sim(&sim, budget, keep_evals),
        Err(out) => Trace { phases: vec![], pending: vec![], out, last: None },
    }
}

/// Runs the same object from several threads at once, if its type allows that.
pub struct Shared<'a, T>(pub &'a T);

pub trait NotShareable {
    fn in_threads(&self, _n: usize, _budget: usize) -> Vec<Trace> {
        vec![]
    }
}

impl<T> NotShareable for Shared<'_, T> {}

pub trait Runs {
    fn trace(&self, budget: usize) -> Trace;
}

impl Runs for sim::Simulation {
    fn trace(&self, budget: usize) -> Trace {
        run_sim(self, budget, false)
    }
}

impl<T: Sync + Runs> Shared<'_, T> {
    pub fn in_threads(&self, n: usize, budget: usize) -> Vec<Trace> {
        let barrier = std::sync::Barrier::new(n);
        let s = self.0;
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    sc.spawn(|| {
                        barrier.wait();
                        s.trace(budget)
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().ok()).collect()
        })
    }
}

/// Surroundings which have no say in a simulation.
pub fn surroundings(c: &mut std::process::Command, r: &mut crate::rng::Rng) {
    if r.p(0.1) {
        c.env_clear();
    }
    let all = [
        ("LANG", "de_DE.UTF-8"),
        ("LC_ALL", "C"),
        ("LC_NUMERIC", "fr_FR.UTF-8"),
        ("TZ", "Asia/Kathmandu"),
        ("HOME", "/nonexistent"),
        ("USER", "somebody"),
        ("TERM", "dumb"),
        ("COLUMNS", "20"),
        ("NO_COLOR", "1"),
        ("CLICOLOR_FORCE", "1"),
        ("RUST_LOG", "trace"),
        ("RUST_BACKTRACE", "full"),
        ("DEBUG", "1"),
        ("VERBOSE", "1"),
        ("TMPDIR", "/nonexistent"),
        ("RAYON_NUM_THREADS", "3"),
        ("OMP_NUM_THREADS", "2"),
        ("MALLOC_PERTURB_", "165"),
        ("SOURCE_DATE_EPOCH", "1"),
    ];
    for _ in 0..r.below(5) {
        let (k, v) = r.pick(&all);
        c.env(k, v);
    }
}
