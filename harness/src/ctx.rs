//! What a check needs while it runs a case, and what it records.

use crate::model::*;
use crate::rng::Rng;
use crate::run::{self, Out, Scratch, Trace};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: u64,
    pub msg: String,
    pub config: String,
}

pub struct Ctx {
    pub r: Rng,
    pub sc: Scratch,
    pub case: u64,
    pub thorough: bool,
    /// Record each evaluation of the equations of motion.
    pub keep: bool,
    /// Runs are slow (under a sanitizer).
    pub small: bool,
    pub runs: u64,
    pub points: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
}

const MAX_DISTINCT: usize = 400_000;

impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.into(), n);
        }
    }
    /// Notes a non-trivial observation.
    pub fn seen(&mut self, h: u64) {
        self.points += 1;
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, msg: String, config: &str) {
        if self.violation.is_none() {
            self.violation = Some(Violation { case: self.case, msg, config: config.into() });
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }

    /// Runs a mission in the real code, in a random way of writing it.
    pub fn run(&mut self, m: &Mission, budget: usize) -> (Trace, String) {
        let st = random_style(&mut self.r);
        let text = m.json(&st, &mut self.r);
        (self.run_text(m, &text, budget), text)
    }
    pub fn run_plain(&mut self, m: &Mission, budget: usize) -> (Trace, String) {
        let text = m.plain();
        (self.run_text(m, &text, budget), text)
    }
    pub fn run_text(&mut self, m: &Mission, text: &str, budget: usize) -> Trace {
        self.runs += 1;
        let t = if run::hooked() { run::run_text(&self.sc, text, budget, self.keep) } else { self.run_blind(m, text) };
        self.add("steps observed", t.steps() as u64);
        self.add("phases observed", t.phases.len() as u64);
        self.add("evaluations observed", t.phases.iter().map(|p| p.evals.len() as u64).sum());
        t
    }

    /// Without the hook: get the states at phase starts, after the first
    /// steps, and at phase ends from runs of shortened missions.
    fn run_blind(&mut self, m: &Mission, text: &str) -> Trace {
        let mut t = run::run_text(&self.sc, text, 0, false);
        if t.out != Out::Done {
            return t;
        }
        let tse = var("time_since_event");
        let effs = m.effs();
        for i in 0..m.phases.len() {
            let mut p = Mission { phases: m.phases[..=i].to_vec() };
            let end = run::run_text(&self.sc, &p.plain(), 0, false).last;
            // A time within 1e-3 of the target ends a phase
            p.phases[i].end = Some((tse, 0.));
            p.phases[i].stepsize = Some(effs[i].stepsize.max(2e-3));
            let start = run::run_text(&self.sc, &p.plain(), 0, false).last;
            let (Some(start), Some(end)) = (start, end) else { break };
            let mut ph = run::PTrace { start, steps: vec![], evals: vec![] };
            p.phases[i].stepsize = m.phases[i].stepsize;
            for k in 1..=(if effs[i].stepsize < 2e-3 { 0 } else { 6 }) {
                let at = k as f64 * effs[i].stepsize;
                if at >= end.tse - 1e-3 {
                    break;
                }
                p.phases[i].end = Some((tse, at));
                if let Some(s) = run::run_text(&self.sc, &p.plain(), 0, false).last {
                    ph.steps.push((s, false));
                }
            }
            ph.steps.push((end, true));
            t.phases.push(ph);
        }
        t
    }

    /// Runs a mission which the model completes, and complains if the real
    /// code does not complete it.
    pub fn run_expected(&mut self, m: &Mission, steps: usize) -> Option<(Trace, String)> {
        let (t, text) = self.run(m, 4 * steps + 200);
        if t.out == Out::Done && t.phases.len() == m.phases.len() {
            return Some((t, text));
        }
        if t.out == Out::Done && !run::hooked() {
            self.count("phases which could not be observed");
            return None;
        }
        let why = if t.out == Out::Done {
            format!("only {} of {} phases were run", t.phases.len(), m.phases.len())
        } else {
            format!("{:?} in phase {}", t.out, t.phases.len())
        };
        self.fail(format!("a valid mission which reaches all targets did not complete: {why}"), &text);
        None
    }
}

/// A phase of a trace, with what is known about it independently.
pub struct Walk<'a> {
    pub i: usize,
    pub env: Env,
    pub cfg: &'a PhaseCfg,
    /// Last state of the previous phase.
    pub prev: Option<S>,
    pub ph: &'a run::PTrace,
}

impl Walk<'_> {
    /// Those which are single steps for certain.
    pub fn single_steps(&self) -> Vec<(S, S, bool)> {
        let mut v = self.advances();
        if !run::hooked() {
            // Several steps might have led to the end of the phase
            v.retain(|x| !x.2);
        }
        v
    }
    /// All complete states seen in the phase.
    pub fn states(&self) -> impl Iterator<Item = &S> {
        std::iter::once(&self.ph.start).chain(self.ph.steps.iter().map(|s| &s.0)).chain(self.ph.evals.iter())
    }
    pub fn last(&self) -> &S {
        self.ph.steps.last().map_or(&self.ph.start, |s| &s.0)
    }
    /// Pairs of states before and after each step which was not discarded.
    pub fn advances(&self) -> Vec<(S, S, bool)> {
        let mut v = vec![];
        let mut s = self.ph.start;
        for (n, end) in &self.ph.steps {
            if n.time != s.time {
                v.push((s, *n, *end));
            }
            s = *n;
        }
        if !run::hooked() && v.len() > 1 {
            // The end was found on a way of its own
            v.pop();
        }
        v
    }
}

pub fn walks<'a>(m: &'a Mission, t: &'a Trace) -> Vec<Walk<'a>> {
    let mut eff = Eff::default();
    let mut launch = [0.; 3];
    let mut prev: Option<S> = None;
    let mut out = vec![];
    for (i, (c, ph)) in m.phases.iter().zip(&t.phases).enumerate() {
        eff.apply(c);
        if i == 0 {
            if let Some(ini) = &c.init {
                launch = launch_frame(&eff.planet, ini);
            }
        }
        let env = Env { eff: eff.clone(), launch, c0: prev.map_or([0.; 3], |s| s.euler), noise: 0. };
        out.push(Walk { i, env, cfg: c, prev, ph });
        prev = Some(ph.steps.last().map_or(ph.start, |s| s.0));
    }
    out
}
