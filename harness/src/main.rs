//! Runs the real simulation under generated missions while monitors watch it.
//!
//!   pm check <id>                one check, in worker processes
//!   pm case <id> <seed> <case>   one case again
//!   pm replay <file>             the case of a violation again
//!   pm solo <file> <budget>      runs one configuration, prints a hash of all it did

mod checks;
mod ctx;
mod gen;
mod json;
mod model;
mod oracles;
mod parse;
mod rng;
mod run;

use checks::{Check, CHECKS};
use ctx::{Ctx, Violation};
use json::{quote, J};
use rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

fn env_num(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn find(id: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}

fn new_ctx(dir: &Path, thorough: bool) -> Ctx {
    Ctx {
        r: Rng::new(0),
        sc: run::Scratch::new(dir),
        case: 0,
        thorough,
        keep: true,
        small: std::env::var_os("PM_SMALL").is_some(),
        runs: 0,
        points: 0,
        distinct: HashSet::new(),
        counts: BTreeMap::new(),
        samples: vec![],
        violation: None,
    }
}

fn do_case(ctx: &mut Ctx, c: &Check, seed: u64, case: u64) {
    ctx.case = case;
    ctx.keep = true;
    ctx.r = Rng::new(mix(&[seed, hash_str(c.id), case]));
    (c.case)(ctx);
}

struct Args(Vec<String>);

impl Args {
    fn s(&self, i: usize) -> &str {
        self.0.get(i).map_or("", |x| x)
    }
    fn n(&self, i: usize) -> u64 {
        self.s(i).parse().unwrap_or_else(|_| {
            eprintln!("bad arguments: {:?}", self.0);
            std::process::exit(2)
        })
    }
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    match a.s(0) {
        "check" => check(find(a.s(1))),
        "list" => {
            for c in checks::CHECKS {
                println!("{} {}", c.id, c.title);
            }
        }
        "worker" => worker(&a),
        "case" => {
            let v = single(find(a.s(1)), a.n(2), a.n(3));
            report_single(v)
        }
        "replay" => {
            let text = std::fs::read_to_string(a.s(1)).unwrap_or_default();
            let Some(j) = J::parse(&text) else {
                eprintln!("cannot read {}", a.s(1));
                std::process::exit(2)
            };
            let id = j.get("property").and_then(|x| x.str()).unwrap_or("");
            let v = single(find(id), j.get("seed").and_then(|x| x.u64()).unwrap(), j.get("case").and_then(|x| x.u64()).unwrap());
            report_single(v)
        }
        "solo" => {
            run::install_panic_hook();
            if a.s(3) == "blind" {
                run::give_up_hook();
            }
            let t = match run::load(Path::new(a.s(1))) {
                Ok(s) => run::run_sim(&s, a.n(2) as usize, false),
                Err(o) => run::Trace { phases: vec![], pending: vec![], out: o, last: None },
            };
            eprintln!("solo-hash {}", mix(&t.bits()));
        }
        // Everything observed of the mission of a violation, or of a configuration
        "show" => {
            run::install_panic_hook();
            let text = std::fs::read_to_string(a.s(1)).unwrap_or_default();
            let j = J::parse(&text);
            let config = j.as_ref().and_then(|j| j.get("config")).and_then(|x| x.str()).unwrap_or(&text);
            let dir = scratch_dir();
            let t = run::run_text(&run::Scratch::new(&dir), config, 100_000, true);
            std::fs::remove_dir_all(&dir).ok();
            let run = parse::mission(config).map(|m| model::run(&m, 5000));
            let only = a.s(2).parse().unwrap_or(0);
            for (i, p) in t.phases.iter().enumerate().filter(|(i, _)| only == 0 || i + 1 == only) {
                let q = run.as_ref().and_then(|r| r.phases.get(i));
                if let Some(q) = q {
                    eprintln!("phase {}: {} steps, reference {} steps, {:?}", i + 1, p.steps.len(), q.steps.len(), q.flags);
                    eprintln!("{:?}", q.env);
                    eprintln!("reference start {:?}", q.start);
                }
                eprintln!("real start      {:?}", p.start);
                for (k, (s, e)) in p.steps.iter().enumerate() {
                    if let Some(r) = q.and_then(|q| q.steps.get(k)) {
                        eprintln!("reference {k} {r:?}");
                    }
                    eprintln!("real {} {k} {s:?}", if *e { "end" } else { "step" });
                }
            }
            if let Some(r) = &run {
                eprintln!("reference {:?} in phase {}", r.end, r.phases.len());
            }
            eprintln!("{:?}", t.out);
        }
        _ => {
            eprintln!("usage: pm check|case|replay|solo ...");
            std::process::exit(2)
        }
    }
}

fn scratch_dir() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{base}/pm-{}", std::process::id()))
}

fn single(c: &Check, seed: u64, case: u64) -> Option<Violation> {
    run::install_panic_hook();
    run::watch();
    let dir = scratch_dir();
    let mut ctx = new_ctx(&dir, false);
    run::try_hook(&ctx.sc);
    do_case(&mut ctx, c, seed, case);
    std::fs::remove_dir_all(&dir).ok();
    eprintln!("{} runs, {} observations: {:?}", ctx.runs, ctx.points, ctx.counts);
    ctx.violation
}

fn report_single(v: Option<Violation>) {
    match v {
        Some(v) => {
            eprintln!("VIOLATION: {}\n{}", v.msg, v.config);
            std::process::exit(1)
        }
        None => eprintln!("no violation"),
    }
}

// ---------------------------------------------------------------- worker

fn worker(a: &Args) {
    let c = find(a.s(1));
    let (seed, w, nw, cases, deadline) = (a.n(2), a.n(3), a.n(4), a.n(5), a.n(6));
    let dir = PathBuf::from(a.s(7));
    let thorough = a.s(8) == "thorough";
    run::install_panic_hook();
    run::watch();
    let mut ctx = new_ctx(&dir.join(format!("w{w}")), thorough);
    run::try_hook(&ctx.sc);
    let now = std::fs::File::create(dir.join(format!("case{w}"))).unwrap();
    let t0 = Instant::now();
    let mut case = w;
    let mut done = 0u64;
    let mut error = String::new();
    while case < cases && t0.elapsed() < Duration::from_secs(deadline) {
        now.write_all_at(&case.to_le_bytes(), 0).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| do_case(&mut ctx, c, seed, case)));
        if r.is_err() && ctx.violation.is_none() {
            error = format!("the monitor itself failed in case {case}");
            break;
        }
        done += 1;
        if ctx.failed() {
            break;
        }
        case += nw;
    }
    let mut o = String::from("{");
    o += &format!("\"done\":{done},\"runs\":{},\"points\":{},\"error\":{},", ctx.runs, ctx.points, quote(&error));
    o += &format!("\"hooked\":{},", run::hooked());
    if let Some(v) = &ctx.violation {
        o += &format!("\"violation\":{{\"case\":{},\"msg\":{},\"config\":{}}},", v.case, quote(&v.msg), quote(&v.config));
    }
    o += "\"counts\":{";
    o += &ctx.counts.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &ctx.samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(",");
    o += "]}";
    let mut h = Vec::with_capacity(8 * ctx.distinct.len());
    for x in &ctx.distinct {
        h.extend(x.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hash{w}")), h).unwrap();
    std::fs::write(dir.join(format!("tmp{w}")), o).unwrap();
    std::fs::rename(dir.join(format!("tmp{w}")), dir.join(format!("out{w}"))).unwrap();
}

// ---------------------------------------------------------------- parent

struct Found {
    case: u64,
    msg: String,
    config: String,
}

/// What the workers of one executable observed.
#[derive(Default)]
struct Stage {
    found: Option<Found>,
    errors: Vec<String>,
    done: u64,
    runs: u64,
    points: u64,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    distinct: HashSet<u64>,
    unhooked: bool,
}

/// The exit status of a process in which a sanitizer found something.
const SANITIZER: i32 = 66;

/// What is said of a process which takes too long.
const SLOW: &str = "slow";
const GIVEN_UP: &str = "processes given up because they were slow";

struct Job<'a> {
    c: &'a Check,
    exe: PathBuf,
    sanitizer: bool,
    seed: u64,
    workers: u64,
    cases: u64,
    seconds: u64,
    tier: &'a str,
}

fn spawn(job: &Job, args: &[String], err: Stdio) -> Child {
    let mut c = Command::new(&job.exe);
    if job.sanitizer {
        c.env("PM_SMALL", "1");
        c.env("TSAN_OPTIONS", format!("exitcode={SANITIZER}:halt_on_error=1"));
        c.env("ASAN_OPTIONS", format!("exitcode={SANITIZER}:detect_leaks=0"));
    }
    c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().expect("cannot start a worker")
}

/// Waits until a process ends, or kills it after some time.
fn wait(ch: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t0 = Instant::now();
    while t0.elapsed() < limit {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    ch.kill().ok();
    ch.wait().ok();
    None
}

fn stage(job: &Job) -> Stage {
    let t0 = Instant::now();
    let dir = scratch_dir();
    std::fs::create_dir_all(&dir).unwrap();
    let mut st = Stage::default();
    let err_file = |w: u64| dir.join(format!("err{w}"));
    let mut ws: Vec<(u64, Child)> = (0..job.workers)
        .map(|w| {
            let v = ["worker".to_string(), job.c.id.into(), job.seed.to_string(), w.to_string(), job.workers.to_string(), job.cases.to_string(), job.seconds.to_string(), dir.display().to_string(), job.tier.into()];
            let err = if job.sanitizer { std::fs::File::create(err_file(w)).unwrap().into() } else { Stdio::inherit() };
            (w, spawn(job, &v, err))
        })
        .collect();

    let in_flight = |w: u64| -> Option<u64> {
        let mut b = [0; 8];
        std::fs::File::open(dir.join(format!("case{w}"))).ok()?.read_exact(&mut b).ok()?;
        Some(u64::from_le_bytes(b))
    };
    // A case which ended or froze a process must do so again, alone
    let patience = std::cell::Cell::new(Duration::from_secs(240));
    let suspicious = |w: u64, what: &str| -> Result<Found, String> {
        let Some(case) = in_flight(w) else { return Err(format!("a worker was {what} before its first case")) };
        let v = ["case".to_string(), job.c.id.into(), job.seed.to_string(), case.to_string()];
        let mut ch = spawn(job, &v, Stdio::null());
        let config = String::new();
        let t = Instant::now();
        let r = wait(&mut ch, patience.get());
        patience.set(patience.get().saturating_sub(t.elapsed()));
        match r {
            // Slow, but the code under test is not what it waits for
            None => Err(String::new()),
            Some(s) if s.code() == Some(run::FROZEN) => Ok(Found { case, msg: "the simulation does not come to an end".into(), config }),
            Some(s) if s.signal().is_some() => Ok(Found { case, msg: format!("the process was ended by {s}"), config }),
            Some(s) if s.code() == Some(1) => Ok(Found { case, msg: "violation on repetition".into(), config }),
            Some(s) if s.success() && what == SLOW => Err(String::new()),
            Some(s) => Err(format!("a worker was {what} in case {case}, which gave {s} when repeated")),
        }
    };
    let limit = Duration::from_secs(job.seconds + if job.sanitizer { 120 } else { 40 });
    while !ws.is_empty() && st.found.is_none() {
        let mut rest = vec![];
        for (w, mut ch) in std::mem::take(&mut ws) {
            match ch.try_wait() {
                Ok(Some(s)) => {
                    let out = dir.join(format!("out{w}"));
                    if job.sanitizer && s.code() == Some(SANITIZER) {
                        // One report is enough: the other order of things may not come again
                        let log = std::fs::read_to_string(err_file(w)).unwrap_or_default();
                        let first = log.find("WARNING: ").or(log.find("ERROR: ")).unwrap_or(0);
                        let report: String = log[first..].lines().take(40).collect::<Vec<_>>().join("\n");
                        st.found = Some(Found { case: in_flight(w).unwrap_or(0), msg: format!("the sanitizer reports: {report}"), config: String::new() });
                    } else if !out.exists() {
                        let what = if s.code() == Some(run::FROZEN) { SLOW.into() } else { format!("ended ({s})") };
                        match suspicious(w, &what) {
                            Ok(f) => st.found = Some(f),
                            Err(e) if e.is_empty() => *st.counts.entry(GIVEN_UP.into()).or_default() += 1,
                            Err(e) => st.errors.push(e),
                        }
                    } else if let Some(v) = std::fs::read_to_string(out).ok().and_then(|t| J::parse(&t)).as_ref().and_then(|j| j.get("violation")) {
                        st.found = Some(Found {
                            case: v.get("case").and_then(|x| x.u64()).unwrap_or(0),
                            msg: v.get("msg").and_then(|x| x.str()).unwrap_or("").into(),
                            config: v.get("config").and_then(|x| x.str()).unwrap_or("").into(),
                        });
                    }
                }
                _ if t0.elapsed() > limit => {
                    ch.kill().ok();
                    ch.wait().ok();
                    match suspicious(w, SLOW) {
                        Ok(f) => st.found = Some(f),
                        Err(e) if e.is_empty() => *st.counts.entry(GIVEN_UP.into()).or_default() += 1,
                        Err(e) => st.errors.push(e),
                    }
                }
                _ => rest.push((w, ch)),
            }
        }
        ws.extend(rest);
        std::thread::sleep(Duration::from_millis(5));
    }
    for (_, ch) in &mut ws {
        ch.kill().ok();
        ch.wait().ok();
    }

    // What was observed
    for w in 0..job.workers {
        let Some(j) = std::fs::read_to_string(dir.join(format!("out{w}"))).ok().and_then(|t| J::parse(&t)) else { continue };
        let n = |k: &str| j.get(k).and_then(|x| x.u64()).unwrap_or(0);
        st.done += n("done");
        st.runs += n("runs");
        st.points += n("points");
        st.unhooked |= j.get("hooked") != Some(&J::Bool(true));
        match j.get("error").and_then(|x| x.str()) {
            Some("") | None => {}
            Some(e) => st.errors.push(e.into()),
        }
        if let Some(J::Obj(v)) = j.get("counts") {
            for (k, x) in v {
                *st.counts.entry(k.clone()).or_default() += x.u64().unwrap_or(0);
            }
        }
        if let Some(J::Arr(v)) = j.get("samples") {
            st.samples.extend(v.iter().filter_map(|x| x.str().map(String::from)).take(1));
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hash{w}"))) {
            st.distinct.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    st.samples.truncate(2);
    st
}

fn check(c: &Check) {
    let t0 = Instant::now();
    let seed = env_num("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let home = PathBuf::from(std::env::var("PM_HOME").unwrap_or("/verif".into()));
    let workers = env_num("PM_WORKERS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64));
    let mut job = Job {
        c,
        exe: std::env::current_exe().unwrap(),
        sanitizer: false,
        seed,
        workers,
        cases: env_num("PM_CASES", if thorough { c.thorough } else { c.quick }),
        seconds: env_num("PM_SECONDS", if thorough { 600 } else { 25 }),
        tier,
    };
    let Stage { mut found, mut errors, done, runs, points, mut counts, samples, distinct, unhooked } = stage(&job);
    let hooked = !unhooked;
    let mut by = String::new();
    // The same under sanitizers: PM_SAN=name=executable;...
    for x in std::env::var("PM_SAN").unwrap_or_default().split(';') {
        let Some((name, exe)) = x.split_once('=') else { continue };
        if found.is_some() {
            break;
        }
        job.exe = exe.into();
        job.sanitizer = true;
        job.seconds = env_num("PM_SAN_SECONDS", if thorough { 200 } else { 20 });
        let st = stage(&job);
        counts.insert(format!("cases under the {name} sanitizer"), st.done);
        counts.insert(format!("runs under the {name} sanitizer"), st.runs);
        found = st.found;
        by = name.into();
        errors.extend(st.errors);
    }

    // A slow machine must not fail the check, an idle monitor must
    let min = if hooked { c.min / 100 } else { c.min / 500 };
    let enough = distinct.len() as u64 >= min || std::env::var_os("PM_CASES").is_some();
    let wall = t0.elapsed().as_secs_f64();
    let mut e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        quote(c.id),
        quote(tier)
    );
    e += &format!(
        "  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {done},\n  \"judged_observations\": {points},\n  \"hook_active\": {hooked},\n",
        distinct.len(),
        quote(c.rule)
    );
    e += "  \"observed\": {\n";
    e += &counts.iter().map(|(k, v)| format!("   {}: {v}", quote(k))).collect::<Vec<_>>().join(",\n");
    e += "\n  },\n  \"samples\": [\n";
    e += &samples.iter().map(|s| format!("   {}", quote(s))).collect::<Vec<_>>().join(",\n");
    e += &format!(
        "\n  ]\n }},\n \"wall_s\": {wall:.3},\n \"violations\": {},\n \"assumptions\": [\n  \"the reference computations of the monitor (harness/src/model.rs) are right\",\n  \"64-bit hashes of observations do not collide\"\n ]\n}}\n",
        found.is_some() as u32
    );
    let ev = home.join("evidence");
    std::fs::create_dir_all(&ev).ok();
    if let Err(x) = std::fs::write(ev.join(format!("{}.json", c.id)), e) {
        errors.push(format!("cannot write evidence: {x}"));
    }

    println!("{} {}: {done} cases, {runs} runs, {points} observations judged, {} distinct, {wall:.1} s", c.id, c.title, distinct.len());
    if let Some(f) = found {
        let rd = home.join("replays");
        std::fs::create_dir_all(&rd).ok();
        let p = rd.join(format!("{}-{seed}-{}.json", c.id, f.case));
        let text = format!(
            "{{\n \"property\": {},\n \"seed\": {seed},\n \"case\": {},\n \"sanitizer\": {},\n \"message\": {},\n \"config\": {}\n}}\n",
            quote(c.id),
            f.case,
            quote(&by),
            quote(&f.msg),
            quote(&f.config)
        );
        std::fs::write(&p, text).ok();
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", c.id, p.display());
        std::process::exit(1)
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        std::process::exit(2)
    }
    if !enough {
        eprintln!("error: only {} distinct observations, {min} are needed to judge", distinct.len());
        std::process::exit(2)
    }
    std::io::stdout().flush().ok();
}
