// Checks of the interface: configuration files and the printed transcript.

use crate::json::J;
use std::process::{Command, Stdio};

// ---------------------------------------------------------------- C14

/// What the value at some place of a configuration is.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Phase,
    Init,
    Vehicle,
    Table,
    Engine,
    Steering,
    PlanetEnum,
    Custom,
    Atmosphere,
    /// Variable and value(s)
    Pair,
    Var,
    PlanetName,
    Interp,
    Bool,
    Num,
    /// Array of numbers of fixed length
    Fixed,
    /// Nodes of an axis of a table
    Nodes,
    Data,
    List,
}

#[derive(Clone, Debug)]
struct Place {
    path: Vec<usize>,
    kind: Kind,
    /// May be null
    optional: bool,
    /// Must be there
    required: bool,
}

fn keys(kind: Kind) -> &'static [&'static str] {
    match kind {
        Kind::Phase => &["init", "vehicle", "steering", "planet_model", "atmosphere", "max_acceleration", "stepsize", "end_criterion"],
        Kind::Init => &["latitude", "longitude", "azimuth", "altitude"],
        Kind::Vehicle => {
            &["structure_mass", "propellant_mass", "reference_area", "drag_coeff", "lift_coeff", "side_force_coeff", "engines"]
        }
        Kind::Table => &["x", "y", "z", "data", "interpolator"],
        Kind::Engine => &["incidence", "thrust_vac", "isp_vac", "exit_area"],
        Kind::Steering => &["roll", "yaw", "pitch"],
        Kind::PlanetEnum => &["custom", "spherical", "fisher1960", "fisher_1960", "smithsonian"],
        Kind::Custom => &["equatorial_radius", "polar_radius", "gravitational_parameters", "rotation_rate"],
        Kind::Atmosphere => &["enabled", "wind"],
        _ => &[],
    }
}

fn places(j: &J, kind: Kind, optional: bool, required: bool, path: &mut Vec<usize>, out: &mut Vec<Place>) {
    out.push(Place { path: path.clone(), kind, optional, required });
    let mut go = |i: usize, x: &J, k: Kind, opt: bool, req: bool| {
        if matches!(x, J::Null) {
            return;
        }
        path.push(i);
        places(x, k, opt, req, path, out);
        path.pop();
    };
    match j {
        J::Obj(v) => {
            for (i, (key, x)) in v.iter().enumerate() {
                use Kind::*;
                let (k, opt, req) = match (kind, key.as_str()) {
                    (Phase, "init") => (Init, true, false),
                    (Phase, "vehicle") => (Vehicle, true, false),
                    (Phase, "steering") => (Steering, true, false),
                    (Phase, "planet_model") => (if matches!(x, J::Str(_)) { PlanetName } else { PlanetEnum }, true, false),
                    (Phase, "atmosphere") => (Atmosphere, true, false),
                    (Phase, "end_criterion") => (Pair, true, false),
                    (Phase, _) => (Num, true, false),
                    (Init, _) => (Num, false, true),
                    (Vehicle, "engines") => (List, true, false),
                    (Vehicle, k) if k.ends_with("coeff") => (Table, true, false),
                    (Vehicle, _) => (Num, true, false),
                    (Steering, _) => (Pair, true, false),
                    (PlanetEnum, _) => (Custom, false, false),
                    (Custom, "gravitational_parameters") => (Fixed, false, true),
                    (Custom, _) => (Num, false, true),
                    (Atmosphere, "enabled") => (Bool, true, false),
                    (Atmosphere, _) => (Fixed, true, false),
                    (Engine, "incidence") => (Fixed, false, true),
                    (Engine, _) => (Num, false, true),
                    (Table, "interpolator") => (Interp, false, false),
                    (Table, "data") => (Data, false, true),
                    (Table, _) => (Pair, false, key == "x"),
                    _ => continue,
                };
                go(i, x, k, opt, req);
            }
        }
        J::Arr(v) => {
            for (i, x) in v.iter().enumerate() {
                use Kind::*;
                let k = match (kind, x) {
                    (Pair, J::Str(_)) => Var,
                    (Pair, J::Num(_)) => Num,
                    // Nodes of tables have no fixed length, coefficients have
                    (Pair, _) => Nodes,
                    (Data, J::Arr(_)) => Data,
                    (Fixed | Nodes | Data, _) => Num,
                    (List, _) => Engine,
                    _ => continue,
                };
                go(i, x, k, false, false);
            }
        }
        _ => {}
    }
}

fn all_places(j: &J) -> Vec<Place> {
    let mut out = vec![];
    if let J::Arr(v) = j {
        for (i, p) in v.iter().enumerate() {
            places(p, Kind::Phase, false, false, &mut vec![i], &mut out);
        }
    }
    // Coefficients of steering have a fixed length
    let fixed: Vec<Vec<usize>> = out.iter().filter(|p| p.kind == Kind::Steering).map(|p| p.path.clone()).collect();
    for p in &mut out {
        if p.kind == Kind::Nodes && fixed.iter().any(|f| p.path.starts_with(f)) {
            p.kind = Kind::Fixed;
        }
    }
    out
}

fn mangle(r: &mut Rng, name: &str) -> String {
    match r.below(9) {
        0 => name.to_uppercase(),
        1 => {
            let mut c = name.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or("X".into())
        }
        2 => name.split('_').enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { w[..1.min(w.len())].to_uppercase() + &w[1.min(w.len())..] }).collect(),
        3 => format!("{name}_"),
        4 => format!(" {name}"),
        5 => name.chars().take(name.chars().count().saturating_sub(1)).collect(),
        6 => format!("{name}s"),
        7 => name.replace('_', "-"),
        _ => {
            let mut c: Vec<char> = name.chars().collect();
            if c.len() > 1 {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            c.into_iter().collect()
        }
    }
}

/// A key which is not known where it is put.
fn unknown_key(r: &mut Rng, kind: Kind) -> String {
    const OTHER: [Kind; 8] =
        [Kind::Phase, Kind::Init, Kind::Vehicle, Kind::Engine, Kind::Steering, Kind::Custom, Kind::Atmosphere, Kind::Table];
    loop {
        let k = match r.below(4) {
            0 => {
                let o = r.pick(&OTHER);
                r.pick(keys(o)).to_string()
            }
            1 => r
                .pick(&["", "step_size", "mass", "name", "comment", "_comment", "//", "engine", "yaw_rate", "wind_speed", "dry_mass", "x1", "planet", "type", "gravity", "max_acc"])
                .to_string(),
            _ => {
                let k = r.pick(keys(kind));
                mangle(r, k)
            }
        };
        if !keys(kind).contains(&k.as_str()) {
            return k;
        }
    }
}

fn unknown_name(r: &mut Rng, known: &dyn Fn(&str) -> bool, from: &str) -> String {
    loop {
        let k = if r.p(0.3) {
            r.pick(&["", "position", "position_x", "position0", "position4", "velocity", "height", "none", "null", "earth", "Earth", "wgs84", "quadratic", "cubic", "roll", "temp", "t", "fisher", "j2", "custom", "0", "time_since_start"]).to_string()
        } else {
            mangle(r, from)
        };
        if !known(&k) {
            return k;
        }
    }
}

fn is_var(n: &str) -> bool {
    VARS.iter().any(|v| v.name == n)
}

/// Makes a valid configuration invalid in one place. Gives what was done.
fn break_config(r: &mut Rng, j: &mut J, all: &[Place]) -> Option<(String, String)> {
    let sub = |r: &mut Rng, f: &dyn Fn(&Place) -> bool| -> Option<Place> {
        let v: Vec<&Place> = all.iter().filter(|p| f(p)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[r.below(v.len())].clone())
        }
    };
    let object = |p: &Place| !keys(p.kind).is_empty();
    let what;
    match r.below(12) {
        0 => {
            let p = sub(r, &object)?;
            let k = unknown_key(r, p.kind);
            let x = match r.below(4) {
                0 => J::Null,
                1 => J::Num("1.0".into()),
                2 => J::Str("x".into()),
                _ => J::Obj(vec![]),
            };
            let J::Obj(v) = j.at(&p.path)? else { return None };
            let at = r.below(v.len() + 1);
            what = format!("unknown key {k:?} in {:?}", p.kind);
            v.insert(at, (k, x));
        }
        1 => {
            let p = sub(r, &object)?;
            let k = unknown_key(r, p.kind);
            let J::Obj(v) = j.at(&p.path)? else { return None };
            if v.is_empty() {
                return None;
            }
            let at = r.below(v.len());
            what = format!("key {:?} misspelt as {k:?}", v[at].0);
            v[at].0 = k;
        }
        2 => {
            let p = sub(r, &|p| p.required)?;
            let (last, parent) = p.path.split_last()?;
            let J::Obj(v) = j.at(parent)? else { return None };
            what = format!("key {:?} is missing", v[*last].0);
            v.remove(*last);
        }
        3 => {
            let p = sub(r, &|p| p.kind == Kind::Data || p.kind == Kind::Num || p.kind == Kind::Fixed || p.kind == Kind::Nodes || p.kind == Kind::List || p.kind == Kind::Pair)?;
            let x = j.at(&p.path)?;
            let old = x.text();
            *x = match r.below(5) {
                0 => J::Str(if p.kind == Kind::Num { old.clone() } else { "x".into() }),
                1 => J::Bool(r.p(0.5)),
                2 if p.kind != Kind::Data => J::Obj(vec![]),
                3 if !p.optional => J::Null,
                _ => match p.kind {
                    Kind::Num => J::Arr(vec![x.clone()]),
                    _ => J::Num("1.0".into()),
                },
            };
            what = format!("{} instead of a {:?}", x.text(), p.kind);
        }
        4 => {
            let p = sub(r, &|p| object(p) || matches!(p.kind, Kind::Var | Kind::PlanetName | Kind::Interp | Kind::Bool))?;
            let x = j.at(&p.path)?;
            *x = match r.below(3) {
                0 => J::Num("1".into()),
                1 if p.kind != Kind::Bool => J::Bool(true),
                _ if !p.optional => J::Null,
                _ => J::Str("nothing of this name".into()),
            };
            what = format!("{} instead of a {:?}", x.text(), p.kind);
        }
        5 => {
            let p = sub(r, &|p| p.kind == Kind::Var)?;
            let x = j.at(&p.path)?;
            let J::Str(s) = x else { return None };
            let n = unknown_name(r, &is_var, s);
            what = format!("unknown variable {n:?}");
            *s = n;
        }
        6 => {
            let p = sub(r, &|p| matches!(p.kind, Kind::PlanetName | Kind::Interp))?;
            let x = j.at(&p.path)?;
            let J::Str(s) = x else { return None };
            let ok: &[&str] = if p.kind == Kind::Interp { &["linear"] } else { &["spherical", "fisher1960", "fisher_1960", "smithsonian"] };
            let n = unknown_name(r, &|k| ok.contains(&k), s);
            what = format!("unknown name {n:?} of a {:?}", p.kind);
            *s = n;
        }
        7 => {
            let p = sub(r, &|p| matches!(p.kind, Kind::Fixed | Kind::Pair))?;
            let J::Arr(v) = j.at(&p.path)? else { return None };
            if r.p(0.5) {
                let at = r.below(v.len());
                v.remove(at);
            } else {
                let x = v[r.below(v.len())].clone();
                v.push(x);
            }
            what = format!("{} entries in a {:?}", v.len(), p.kind);
        }
        8 => {
            // Order of nodes
            let p = sub(r, &|p| p.kind == Kind::Nodes)?;
            let J::Arr(v) = j.at(&p.path)? else { return None };
            if v.len() < 2 {
                return None;
            }
            let mut i = r.below(v.len() - 1);
            if r.p(0.5) && v.len() > 8 {
                // Where parts of the axis may meet, or at its end
                let part = 1 << r.int(2, (v.len() as f64).log2() as usize);
                i = (part * r.int(1, v.len() / part)).min(v.len() - 1) - 1;
            }
            match if v.len() > 8 { r.below(12) % 3 } else { r.below(3) } {
                0 => v.swap(i, i + 1),
                1 => v[i + 1] = v[i].clone(),
                _ => {
                    if v[i] == v[v.len() - 1 - i] {
                        v.swap(i, i + 1)
                    } else {
                        v.reverse()
                    }
                }
            }
            what = "nodes of a table which are not sorted".into();
        }
        9 | 10 => {
            // Lengths
            let p = sub(r, &|p| matches!(p.kind, Kind::Nodes | Kind::Data))?;
            let J::Arr(v) = j.at(&p.path)? else { return None };
            if v.is_empty() {
                return None;
            }
            if r.p(0.5) {
                let at = r.below(v.len());
                v.remove(at);
            } else {
                let mut x = v[v.len() - 1].clone();
                if let (J::Num(n), Kind::Nodes) = (&mut x, p.kind) {
                    let y: f64 = n.parse().ok()?;
                    *n = format!("{:?}", y + 1. + y.abs());
                }
                v.push(x);
            }
            what = format!("{} entries in a {:?} of a table", v.len(), p.kind);
        }
        _ => {
            // The same key twice
            let p = sub(r, &object)?;
            let J::Obj(v) = j.at(&p.path)? else { return None };
            if v.is_empty() {
                return None;
            }
            let x = v[r.below(v.len())].clone();
            let at = r.below(v.len() + 1);
            what = format!("key {:?} given twice", x.0);
            v.insert(at, x);
        }
    }
    Some((what, j.text()))
}

/// Makes a text invalid as JSON.
fn break_text(r: &mut Rng, text: &str) -> (String, Vec<u8>) {
    let b = text.as_bytes().to_vec();
    // Places of numbers
    let number_at = |r: &mut Rng| -> Option<(usize, usize)> {
        let v: Vec<usize> = (1..b.len() - 1)
            .filter(|&i| (b[i].is_ascii_digit() || b[i] == b'-') && matches!(b[i - 1], b'[' | b',' | b':'))
            .collect();
        if v.is_empty() {
            return None;
        }
        let i = v[r.below(v.len())];
        let e = (i..b.len()).find(|&k| matches!(b[k], b',' | b']' | b'}')).unwrap_or(b.len());
        Some((i, e))
    };
    let replaced = |i: usize, e: usize, x: &str| -> Vec<u8> { [&b[..i], x.as_bytes(), &b[e..]].concat() };
    match r.below(11) {
        0 => {
            let n = r.below(b.len());
            (format!("cut off after {n} bytes"), b[..n].to_vec())
        }
        1 => {
            let x = r.pick(&["]", "}", ",", "x", "[]", "0", "null", "// end", "#", "\u{0}"]);
            (format!("followed by {x:?}"), [&b[..], x.as_bytes()].concat())
        }
        2 => {
            let v: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b']' | b'}') && i > 0 && !matches!(b[i - 1], b'[' | b'{')).collect();
            let i = v[r.below(v.len())];
            ("trailing comma".into(), replaced(i, i, ","))
        }
        3 => {
            let v: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b'[' | b'{')).collect();
            let i = v[r.below(v.len())];
            let c = r.pick(&["/* note */", "// note\n", "# note\n"]);
            (format!("comment {c:?}"), replaced(i, i, c))
        }
        4 | 5 => {
            if let Some((i, e)) = number_at(r) {
                let old = text[i..e].trim().to_string();
                let x = match r.below(9) {
                    0 => "NaN".to_string(),
                    1 => "Infinity".into(),
                    2 => "1e999".into(),
                    3 => "-1e999".into(),
                    4 => format!("+{}", old.trim_start_matches('-')),
                    5 => ".5".into(),
                    6 => "1.".into(),
                    7 => "0x10".into(),
                    _ => "01".into(),
                };
                (format!("number {x}"), replaced(i, e, &x))
            } else {
                ("empty file".into(), vec![])
            }
        }
        6 => {
            let v: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'"').collect();
            if v.is_empty() {
                return ("empty file".into(), vec![]);
            }
            let i = v[r.below(v.len())];
            let x = r.pick(&["", "'", "`", "\\\""]);
            (format!("quote replaced by {x:?}"), replaced(i, i + 1, x))
        }
        7 => {
            let v: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b'[' | b'{' | b']' | b'}' | b':')).collect();
            let i = v[r.below(v.len())];
            (format!("{:?} left out", b[i] as char), replaced(i, i + 1, ""))
        }
        8 => {
            let v: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'"').collect();
            let i = if v.is_empty() { 0 } else { v[r.below(v.len())] + 1 };
            let x: &[u8] = r.pick(&[&b"\xff"[..], &b"\xc3\x28"[..], &b"\xf0\x9f"[..]]);
            ("invalid UTF-8".into(), [&b[..i], x, &b[i..]].concat())
        }
        9 => {
            let x = r.pick(&["", " ", "\n", "{}", "null", "[null]", "[1]", "[\"\"]", "0", "\"\"", "true", "[{}", "[{},]", "[true]", "[{}]]", "{\"phases\":[]}"]);
            (format!("only {x:?}"), x.as_bytes().to_vec())
        }
        _ => {
            // One phase which is no phase
            let x = r.pick(&["null", "1", "\"phase\"", "true"]);
            let mut s = text.trim_end().trim_end_matches(']').trim_end().to_string();
            s += if s.trim_end().ends_with('[') { "" } else { "," };
            s += x;
            s += "]";
            (format!("a phase which is {x}"), s.into_bytes())
        }
    }
}

fn post_bin() -> Option<std::path::PathBuf> {
    std::env::var_os("PM_POST").map(Into::into)
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}

/// Runs the binary. None if it could not be started or took too long.
fn run_post(args: &[&std::ffi::OsStr], dir: &std::path::Path) -> Option<Ran> {
    run_post_to(args, dir, Sink::Whole, &mut |_| ())
}

/// Where the output goes.
#[derive(Clone, Copy, Debug)]
enum Sink {
    Whole,
    /// A device which is full.
    Full,
    /// A reader which leaves after so many bytes.
    Leaves(usize),
}

fn run_post_to(
    args: &[&std::ffi::OsStr],
    dir: &std::path::Path,
    sink: Sink,
    setup: &mut dyn FnMut(&mut Command),
) -> Option<Ran> {
    let mut c = Command::new(post_bin()?);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir(dir);
    c.env_remove("RUST_BACKTRACE");
    if let Sink::Full = sink {
        c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").ok()?);
    }
    setup(&mut c);
    let mut child = c.spawn().ok()?;
    // Too long a run is ended
    let (so, mut se) = (child.stdout.take(), child.stderr.take()?);
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        if let Some(so) = so {
            let max = if let Sink::Leaves(n) = sink { n as u64 } else { u64::MAX };
            std::io::Read::read_to_end(&mut std::io::Read::take(so, max), &mut v).ok();
        }
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        std::io::Read::read_to_end(&mut se, &mut v).ok();
        v
    });
    let t0 = std::time::Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed().as_secs() < 60 => std::thread::sleep(std::time::Duration::from_micros(300)),
            _ => {
                child.kill().ok();
                child.wait().ok();
                break None;
            }
        }
    };
    let out = String::from_utf8_lossy(&a.join().ok()?).into_owned();
    let err = String::from_utf8_lossy(&b.join().ok()?).into_owned();
    Some(Ran { code: st?.code(), out, err })
}

fn c14(ctx: &mut Ctx) {
    let m = if ctx.r.p(0.3) {
        gen::flight(&mut ctx.r, &FlightOpt { churn: 0.6, tables: 1., phases: (1, 4), max_steps: 6, ..Default::default() }).0
    } else {
        // Now and then with long tables
        let max_nodes = if ctx.case % 8 == 3 { ctx.r.log(20., 5000.) as usize } else { 5 };
        gen::probe(&mut ctx.r, &ProbeOpt { phases: (1, 3), max_nodes, steps: 1, ..gen::PROBE })
    };
    // The original is accepted, however it is written
    for k in 0..3 {
        let st = if k == 0 { PLAIN } else { random_style(&mut ctx.r) };
        let text = m.json(&st, &mut ctx.r);
        let p = ctx.sc.write(text.as_bytes());
        ctx.runs += 1;
        match run::load(&p) {
            Ok(_) => {
                ctx.count("valid configurations accepted");
                ctx.seen(crate::rng::hash_str(&text));
            }
            Err(e) => {
                ctx.fail(format!("a valid configuration is not accepted: {e:?}"), &text);
                return;
            }
        }
    }
    let plain = m.plain();
    let Some(j) = J::parse(&plain) else { return };
    let all = all_places(&j);
    for k in 0..12 {
        let (what, bytes) = if k % 4 == 3 {
            let st = random_style(&mut ctx.r);
            let text = m.json(&st, &mut ctx.r);
            break_text(&mut ctx.r, &text)
        } else {
            let mut x = j.clone();
            match break_config(&mut ctx.r, &mut x, &all) {
                Some((w, t)) if t != plain => (w, t.into_bytes()),
                _ => continue,
            }
        };
        let p = ctx.sc.write(&bytes);
        if !rejected(ctx, &what, &p, &bytes, k == 0 && ctx.case % 6 == 0) {
            return;
        }
    }
    if ctx.case % 50 == 0 {
        let dir = ctx.sc.dir.clone();
        let missing = dir.join("missing.json");
        let _ = rejected(ctx, "a file which does not exist", &missing, b"", true) && rejected(ctx, "a directory", &dir, b"", true);
        let mem = std::path::Path::new("/proc/self/mem");
        if std::fs::read(mem).is_err() {
            let _ = rejected(ctx, "a file which gives an error when it is read", mem, b"", true);
        }
    }
}

/// An invalid configuration must be reported, before anything is simulated.
fn rejected(ctx: &mut Ctx, what: &str, p: &std::path::Path, bytes: &[u8], binary: bool) -> bool {
    let text = String::from_utf8_lossy(bytes).into_owned();
    ctx.runs += 1;
    match run::load(p) {
        Err(Out::LoadErr(e)) => {
            if e.trim().is_empty() {
                ctx.fail(format!("no reason is given for the rejection ({what})"), &text);
                return false;
            }
            ctx.count("invalid configurations rejected");
            ctx.count(&format!("rejected: {}", what.split(|c: char| c == '"' || c.is_ascii_digit() || c == '[' || c == '{').next().unwrap_or("").trim()));
            ctx.seen(mix(&[crate::rng::hash_str(&text), crate::rng::hash_str(what)]));
        }
        Err(e) => {
            ctx.fail(format!("loading an invalid configuration ({what}) did not give an error: {e:?}"), &text);
            return false;
        }
        Ok(_) => {
            ctx.fail(format!("an invalid configuration is accepted: {what}"), &text);
            return false;
        }
    }
    if binary && post_bin().is_some() {
        let Some(ran) = run_post(&["--config".as_ref(), p.as_os_str()], &ctx.sc.dir) else {
            ctx.fail(format!("the program does not end on an invalid configuration ({what})"), &text);
            return false;
        };
        ctx.count("invalid configurations given to the program");
        if ran.code == Some(0) || ran.out.contains("Phase") || ran.err.trim().is_empty() {
            ctx.fail(
                format!("the program does not reject an invalid configuration ({what}): exit status {:?}, stdout {:?}, stderr {:?}", ran.code, ran.out.chars().take(200).collect::<String>(), ran.err),
                &text,
            );
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------- C18

#[derive(Debug, Default, Clone)]
struct Record {
    phase: usize,
    time: Option<f64>,
    pos: Vec<f64>,
    vel: Vec<f64>,
    alt: Option<f64>,
    prop: Option<f64>,
}

/// Reads the printed output.
fn records(out: &str) -> Result<(usize, Vec<Record>), String> {
    let mut phase = 0;
    let mut v: Vec<Record> = vec![];
    let mut in_vel = false;
    let num = |s: &str| s.trim().parse::<f64>().map_err(|_| format!("{s:?} is not a number"));
    for l in out.lines() {
        let t = l.trim();
        if let Some(x) = t.strip_prefix("Starting Phase ") {
            phase += 1;
            if x.trim() != phase.to_string() {
                return Err(format!("{t:?} where phase {phase} starts"));
            }
        } else if let Some(x) = t.strip_prefix("Time:") {
            v.push(Record { phase, time: Some(num(x)?), ..Default::default() });
        } else if t.starts_with("Position:") {
            in_vel = false;
        } else if t.starts_with("Velocity:") {
            in_vel = true;
        } else if let Some(r) = v.last_mut() {
            if let Some(x) = t.strip_prefix("Altitude:") {
                r.alt = Some(num(x)?);
            } else if let Some(x) = t.strip_prefix("Prop mass:") {
                r.prop = Some(num(x)?);
            } else if t.starts_with('│') {
                let x = num(t.trim_matches('│'))?;
                if in_vel { &mut r.vel } else { &mut r.pos }.push(x);
            } else if t.chars().any(char::is_alphanumeric) {
                return Err(format!("{t:?} is printed, which belongs to no record"));
            }
        } else if t.chars().any(char::is_alphanumeric) {
            return Err(format!("{t:?} is printed, which belongs to no record"));
        }
    }
    Ok((phase, v))
}

fn same_record(r: &Record, s: &S) -> Result<(), String> {
    let ok = |what: &str, x: f64, y: f64| -> Result<(), String> {
        if x.fract() != 0. {
            return Err(format!("{what} is printed as {x}, not rounded to whole units"));
        }
        if (x - y).abs() <= 0.5 + 1e-6 + 1e-9 * y.abs() {
            Ok(())
        } else {
            Err(format!("{what} is printed as {x}, but is {y}"))
        }
    };
    let want = |what: &str, x: Option<f64>, y: f64| ok(what, x.ok_or(format!("{what} is not printed"))?, y);
    if r.pos.len() != 3 || r.vel.len() != 3 {
        return Err(format!("position or velocity is incomplete: {r:?}"));
    }
    want("time", r.time, s.time)?;
    for i in 0..3 {
        ok(&format!("position {}", i + 1), r.pos[i], s.pos_planet[i])?;
        ok(&format!("velocity {}", i + 1), r.vel[i], s.vel[i])?;
    }
    want("altitude", r.alt, s.alt)?;
    want("propellant mass", r.prop, s.prop)
}

fn c18(ctx: &mut Ctx) {
    if post_bin().is_none() {
        return;
    }
    if ctx.case % 8 == 3 {
        return aborted(ctx);
    }
    let fo = match ctx.case % 4 {
        0 => FlightOpt { phases: (1, 12), churn: 0.4, max_steps: 12, ..Default::default() },
        1 => FlightOpt { phases: (1, 3), max_steps: 150, ..Default::default() },
        _ => FlightOpt::default(),
    };
    let fo = if ctx.case % 40 == 21 { gen::chain_opt(&mut ctx.r) } else { fo };
    let (m, run) = if ctx.case % 160 == 31 {
        ctx.keep = false;
        let n = ctx.r.pick(&[5_000, 12_000, 33_000]);
        gen::marathon(&mut ctx.r, n)
    } else if ctx.case % 40 == 37 {
        voyage(ctx)
    } else if ctx.case % 10 == 6 {
        // Anything, such as more propellant used than there is
        let m = gen::probe(&mut ctx.r, &ProbeOpt { phases: (1, 5), steps: 6, ..gen::PROBE });
        let run = crate::model::run(&m, 2000);
        if run.end != End::Done || run.ill() {
            return;
        }
        (m, run)
    } else {
        gen::flight(&mut ctx.r, &fo)
    };
    let Some((t, text)) = ctx.run_expected(&m, run.steps) else { return };
    let name = ctx.r.pick(&["mission.json", "my mission.json", "übung.json", "no-extension", "a.b.c"]);
    let p = ctx.sc.dir.join(name);
    std::fs::remove_file(&p).ok();
    if ctx.r.p(0.1) {
        let to = ctx.sc.write(text.as_bytes());
        std::os::unix::fs::symlink(to, &p).unwrap();
    } else {
        std::fs::write(&p, &text).unwrap();
    }
    let joined = std::ffi::OsString::from(format!("--config={}", p.display()));
    let rel = std::ffi::OsString::from(name);
    let piped = ctx.r.p(0.1) && text.len() < 60_000;
    let args: Vec<&std::ffi::OsStr> = match ctx.r.below(4) {
        _ if piped => vec!["--config".as_ref(), "/dev/stdin".as_ref()],
        0 => vec!["-c".as_ref(), p.as_os_str()],
        1 => vec![&joined],
        2 => vec!["--config".as_ref(), &rel],
        _ => vec!["--config".as_ref(), p.as_os_str()],
    };
    let r = &mut ctx.r;
    let mut setup = |c: &mut Command| {
        run::surroundings(c, r);
        if let (true, Ok((rd, mut wr))) = (piped, std::io::pipe()) {
            // Arrives bit by bit. The pipe holds it all.
            let mut rest = text.as_bytes();
            while !rest.is_empty() {
                let n = r.int(1, 900).min(rest.len());
                std::io::Write::write_all(&mut wr, &rest[..n]).ok();
                rest = &rest[n..];
            }
            c.stdin(rd);
        }
    };
    let Some(ran) = run_post_to(&args, &ctx.sc.dir, Sink::Whole, &mut setup) else {
        ctx.fail("the program does not end on a mission which ends in the library".into(), &text);
        return;
    };
    ctx.count("runs of the program");
    if piped {
        ctx.count("configurations read from a pipe");
    }
    if ran.code != Some(0) {
        ctx.fail(format!("exit status {:?} on a mission which completes in the library; stderr: {}", ran.code, ran.err), &text);
        return;
    }
    if let Err(e) = transcript(ctx, &m, &t, &ran.out) {
        ctx.fail(e, &text);
        return;
    }
    ctx.sample(|| format!("{}\n---\n{}", text, ran.out.chars().take(700).collect::<String>()));
    if !piped && (ctx.case % 4 == 2 || ran.out.len() > 100_000) {
        // The output is lost: that must not look like a success
        let n = ran.out.len();
        let at = if ctx.r.p(0.5) { ctx.r.below(n) } else { n.saturating_sub(1 + ctx.r.below(200)) };
        for (sink, lost) in [(Sink::Full, n), (Sink::Leaves(at), n - at)] {
            // The pipe itself holds some of it
            if matches!(sink, Sink::Leaves(_)) && lost < 70_000 {
                continue;
            }
            let Some(r) = run_post_to(&args, &ctx.sc.dir, sink, &mut |_| ()) else {
                ctx.fail(format!("the program does not end when its output cannot be written ({sink:?})"), &text);
                return;
            };
            ctx.count("runs whose output cannot be written");
            if r.code == Some(0) {
                ctx.fail(format!("the output could not be written ({sink:?} of {n} bytes), but the exit status is 0"), &text);
                return;
            }
        }
    }
    if ctx.case % 48 < 8 {
        plotted(ctx, &ran.out, &text);
    }
    if ctx.case % 16 < 8 {
        // Without a configuration there is nothing to do
        let bad: &[&[&str]] = &[&[], &["--config"], &["-c"], &["--nothing", "x"]];
        let a: Vec<&std::ffi::OsStr> = ctx.r.pick(bad).iter().map(|s| s.as_ref()).collect();
        if let Some(r) = run_post(&a, &ctx.sc.dir) {
            ctx.count("wrong command lines");
            if r.code == Some(0) || r.out.contains("Starting Phase") {
                ctx.fail(format!("exit status {:?} for the arguments {a:?}: {}", r.code, r.out), &text);
            }
        }
    }
}

/// A run which ends with an error has told everything up to there.
fn aborted(ctx: &mut Ctx) {
    let m = if ctx.r.p(0.6) { overloaded(ctx) } else { jumping(ctx) };
    let Some((m, _)) = m else { return };
    let (t, text) = ctx.run(&m, 20_000);
    let Out::Panic(why) = &t.out else { return };
    let p = ctx.sc.write(text.as_bytes());
    let Some(ran) = run_post(&["--config".as_ref(), p.as_os_str()], &ctx.sc.dir) else {
        ctx.fail("the program does not end on a mission which is aborted in the library".into(), &text);
        return;
    };
    ctx.count("aborted runs of the program");
    if ran.code == Some(0) || ran.err.trim().is_empty() {
        ctx.fail(format!("the mission is aborted in the library ({why}), but the program ends with {:?} and the message {:?}", ran.code, ran.err), &text);
        return;
    }
    if !run::tells_discarded() {
        return;
    }
    let r = records(&ran.out).and_then(|(phases, recs)| {
        if phases != t.phases.len() && phases != t.phases.len() + 1 {
            return Err(format!("{phases} phases are announced, {} were simulated", t.phases.len()));
        }
        same_records(ctx, &t, &recs)
    });
    if let Err(e) = r {
        ctx.fail(format!("a run which is aborted ({why}): {e}"), &text);
    }
}

fn same_records(ctx: &mut Ctx, t: &Trace, recs: &[Record]) -> Result<(), String> {
    let want: Vec<(usize, &S)> =
        t.phases.iter().enumerate().flat_map(|(i, p)| p.steps.iter().map(move |s| (i + 1, &s.0))).collect();
    for (k, (r, (ph, s))) in recs.iter().zip(&want).enumerate() {
        if r.phase != *ph {
            return Err(format!("record {} is printed in phase {}, but is of phase {ph}", k + 1, r.phase));
        }
        same_record(r, s).map_err(|e| format!("record {} (phase {ph}): {e}", k + 1))?;
        ctx.count("records judged");
        ctx.seen(mix(&[r.time.unwrap_or(0.).to_bits(), s.pos[0].to_bits(), *ph as u64, s.vel[0].to_bits()]));
    }
    if recs.len() != want.len() {
        return Err(format!("{} records are printed, there were {} steps", recs.len(), want.len()));
    }
    Ok(())
}

fn transcript(ctx: &mut Ctx, m: &Mission, t: &Trace, out: &str) -> Result<(), String> {
    let (phases, recs) = records(out)?;
    if phases != m.phases.len() {
        return Err(format!("{phases} phases are announced, the mission has {}", m.phases.len()));
    }
    if run::tells_discarded() {
        same_records(ctx, t, &recs)?;
    } else {
        for (i, p) in t.phases.iter().enumerate() {
            let (Some(r), Some((s, _))) = (recs.iter().rev().find(|r| r.phase == i + 1), p.steps.last()) else {
                return Err(format!("nothing is printed in phase {}", i + 1));
            };
            same_record(r, s).map_err(|e| format!("last record of phase {}: {e}", i + 1))?;
            ctx.count("records judged");
            ctx.seen(mix(&[s.hash()]));
        }
    }
    Ok(())
}

/// The plot script must read back what was printed.
fn plotted(ctx: &mut Ctx, out: &str, text: &str) {
    let (Some(shim), Some(plot)) = (std::env::var_os("PM_PLOT_SHIM"), std::env::var_os("PM_PLOT")) else { return };
    let p = ctx.sc.dir.join("transcript.txt");
    std::fs::write(&p, out).unwrap();
    let mut c = Command::new("python3-vt");
    c.arg("-B").arg(shim).arg(plot);
    match std::fs::File::open(&p) {
        Ok(f) if ctx.r.p(0.5) => c.arg("-").stdin(f),
        _ => c.arg(&p).stdin(Stdio::null()),
    };
    if ctx.r.p(0.3) {
        // Also where another encoding is usual
        c.env("LC_ALL", "C").env("PYTHONUTF8", "0").env("PYTHONCOERCECLOCALE", "0");
    }
    let Ok(o) = c.output() else { return };
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    if o.status.success() && s.starts_with("bad") {
        ctx.fail(format!("the plot script cannot read the output: {}", s.trim()), text);
        return;
    }
    if !o.status.success() || !s.starts_with("ok") {
        // The script needs something which is not here
        ctx.count("plot script not usable");
        return;
    }
    let Ok((_, recs)) = records(out) else { return };
    let rows: Vec<Vec<f64>> = s.lines().skip(1).map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect()).collect();
    if rows.len() != recs.len() {
        ctx.fail(format!("the plot script reads {} records of {}", rows.len(), recs.len()), text);
        return;
    }
    for (k, (a, r)) in rows.iter().zip(&recs).enumerate() {
        let mut want = vec![r.phase as f64, r.time.unwrap_or(-1.)];
        want.extend(&r.pos);
        want.extend(&r.vel);
        if *a != want {
            ctx.fail(format!("record {} is read by the plot script as {a:?}, but is {want:?}", k + 1), text);
            return;
        }
        ctx.count("records read by the plot script");
    }
}
