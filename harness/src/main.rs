mod alloc;
mod cov;
mod dict;
mod engine;
mod gen;
mod guided;
mod model;
mod props;
mod refold;
mod refp;
mod unicode;
mod unicode_table;

use engine::*;
// the library's macros name it so
pub use ferrous_chloride::Error;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("FCHECK_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("FCHECK_REPO").unwrap_or_else(|_| "/repo".into()))
}

/// the dictionary of this run and of the processes it starts
fn use_dict(at: &Path, text: &str) {
    let _ = fs::write(at, text);
    std::env::set_var("FCHECK_DICT", at);
}

fn rundir(id: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("fcheck.{}.{}", id, std::process::id()));
    let _ = fs::create_dir_all(&p);
    p
}

fn scale() -> f64 {
    std::env::var("FCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

/// brings the quick tier of each property to about ten seconds
fn factor(id: &str) -> f64 {
    match id {
        "C08" => 30.0,
        "C22" | "C23" => 25.0,
        "C07" => 20.0,
        "C01" | "C05" | "C06" => 15.0,
        "C27" => 14.0,
        "C28" => 12.0,
        "C04" | "C11" | "C15" | "C17" | "C19" => 10.0,
        "C14" => 8.0,
        "C02" | "C09" => 7.0,
        "C03" | "C10" => 5.0,
        "C13" | "C16" | "C18" | "C26" => 3.5,
        "C21" | "C24" | "C25" => 2.0,
        _ => 1.0,
    }
}

fn cases(id: &str, c: &Check, thorough: bool) -> u64 {
    // for trying out one check
    if std::env::var("FCHECK_ONLY").map_or(false, |n| n != c.name) {
        return 1;
    }
    (((if thorough { c.thorough } else { c.quick }) as f64) * scale() * if c.name == "size" || c.name == "collections" { 4.0 } else { factor(id) }).max(1.0) as u64
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let code = match args.first().map(|s| s.as_str()) {
        Some("--worker") => worker(&args[1], args[2] == "thorough", seed, Path::new(&args[3])),
        Some("--guided") => guided::run(&find(&args[1]), args[2].parse().unwrap(), seed, args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5])),
        Some("--one") => one(&args[1], args[2].parse().unwrap(), &args[3], args[4].parse().unwrap(), seed, args.get(5).map(Path::new)),
        Some("--probe") => probe_child(&args[1], &args[2]),
        Some("--replay") => replay(Path::new(&args[1])),
        Some("--dict") => {
            println!("{:?}", dict::read(&dict::build(&repo())));
            0
        }
        Some("--list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => {
            let tier = args.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            parent(id, tier == "thorough", seed)
        }
        None => {
            eprintln!("usage: fcheck <ID> [quick|thorough] | --replay FILE | --list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    props::cli::cleanup();
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

// ------------------------------------------------------------------ worker

/// Runs every generated check of a property and writes `report` (JSON parts) and `violations`.
fn worker(id: &str, thorough: bool, seed: u64, dir: &Path) -> i32 {
    install_hook();
    watchdog();
    let p = find(id);
    let cur = fs::File::create(dir.join("cur")).expect("cur");
    let mut viol = String::new();
    let mut parts: Vec<String> = vec![];
    let (mut ev, mut nt, mut disc) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut rules: Vec<String> = vec![];
    for (ci, c) in p.checks.iter().enumerate() {
        let t0 = Instant::now();
        let rep = run_check(p.id, c, seed, thorough, cases(p.id, c, thorough), Some(&cur), ci as u64);
        ev += rep.evals;
        nt += rep.nontrivial;
        disc += rep.discards;
        for s in &rep.samples {
            samples.push(format!("{}: {}", c.name, s));
        }
        rules.push(format!("{}: {}", c.name, c.rule));
        let labels: Vec<String> = rep.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        parts.push(format!(
            "{{\"check\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"classes\": {{{}}}, \"wall_s\": {:.3}}}",
            json_str(c.name),
            rep.evals,
            rep.nontrivial,
            rep.discards,
            labels.join(", "),
            t0.elapsed().as_secs_f64()
        ));
        if let Some((idx, tape, msg)) = rep.failure {
            let text = shrunk(&p, c, size_for(thorough, idx), tape, &msg, &dir.join("pending"));
            let name = format!("{}-{}-{}.txt", p.id, c.name, seed);
            fs::write(dir.join(&name), &text).ok();
            viol.push_str(&name);
            viol.push('\n');
        }
    }
    fs::write(dir.join("violations"), &viol).expect("violations");
    let rule = rules.join(" | ");
    let mut j = String::new();
    j.push_str(&format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"rule\": {}, ", ev, nt, disc, json_str(&rule)));
    j.push_str(&format!("\"samples\": [{}], ", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("\"checks\": [{}]", parts.join(", ")));
    fs::write(dir.join("report"), &j).expect("report");
    0
}

/// The replay of a failing case, shrunk. A shrink step that kills the process leaves the unshrunk case in `pending`.
fn shrunk(p: &Prop, c: &Check, size: usize, tape: Vec<u64>, msg: &str, pending: &Path) -> String {
    let first = replay_text(p.id, c.name, size, &tape, msg);
    fs::write(pending, &first).ok();
    let f = c.f;
    let (t, o) = std::thread::Builder::new().stack_size(512 << 20).spawn(move || shrink(f, size, tape, 4000)).unwrap().join().unwrap();
    let text = match o.res {
        Err(m) => replay_text(p.id, c.name, size, &t, &format!("{}\ncase: {}", m, clip(&o.ctx.show, 2000))),
        Ok(()) => first,
    };
    fs::remove_file(pending).ok();
    text
}

fn replay_text(id: &str, check: &str, size: usize, tape: &[u64], msg: &str) -> String {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let m: String = msg.lines().map(|l| format!("# {}\n", visible(l))).collect();
    // the tape's choices among the program's own words are to mean the same after the program has changed
    let d = std::env::var("FCHECK_DICT").ok().and_then(|p| fs::read_to_string(p).ok()).unwrap_or_default();
    format!("property={}\ncheck={}\nsize={}\ntape={}\n{}dict={}\n", id, check, size, t.join(","), m, d)
}

/// Runs a single case; exit 1 if it fails. `tape` is "seed:IDX" or a comma separated tape.
fn one(id: &str, check: usize, tape: &str, size: usize, seed: u64, sink: Option<&Path>) -> i32 {
    install_hook();
    let p = find(id);
    let c = &p.checks[check];
    let mut src = if let Some(g) = tape.strip_prefix("guided:") {
        // guided:SEED:TAPE
        let (s, t) = g.split_once(':').unwrap();
        let t: Vec<u64> = t.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        Src::guided(&t, s.parse().unwrap(), size)
    } else if let Some(i) = tape.strip_prefix("seed:") {
        Src::random(case_seed(seed, p.id, c.name, i.parse().unwrap()), size)
    } else {
        let t: Vec<u64> = tape.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        Src::replay(&t, size)
    };
    src.sink = sink.and_then(|p| fs::File::create(p).ok());
    let f = c.f;
    let o = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run_case(f, src)).unwrap().join().unwrap();
    match o.res {
        Ok(()) => 0,
        Err(m) => {
            eprintln!("{}", m);
            1
        }
    }
}

fn probe_child(id: &str, key: &str) -> i32 {
    install_hook();
    let p = find(id);
    let pr = p.probes.iter().find(|x| x.key == key).expect("probe");
    match guard(pr.f) {
        Ok(None) => 0,
        Ok(Some(m)) | Err(m) => {
            eprintln!("{}", m);
            1
        }
    }
}

// ------------------------------------------------------------------ parent

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run_child(args: &[String], seed: u64, timeout: Duration, err: Option<&Path>) -> End {
    run_exe(&std::env::current_exe().expect("exe"), args, seed, timeout, err)
}

fn run_exe(exe: &Path, args: &[String], seed: u64, timeout: Duration, err: Option<&Path>) -> End {
    let stderr = match err.and_then(|p| fs::File::create(p).ok()) {
        Some(f) => Stdio::from(f),
        None => Stdio::null(),
    };
    let mut ch = Command::new(exe)
        .args(args)
        .env("VERIF_SEED", seed.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(stderr)
        .spawn()
        .expect("spawn child");
    let t0 = Instant::now();
    let mut nap = 1u64;
    loop {
        match ch.try_wait().expect("wait") {
            Some(s) => {
                return match s.code() {
                    Some(c) => End::Code(c),
                    None => End::Signal(s.signal().unwrap_or(0)),
                }
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            }
        }
    }
}

fn died(e: &End) -> Option<String> {
    match e {
        End::Signal(s) => Some(format!("the process was killed by signal {} (abort or stack overflow)", s)),
        End::Code(c) if *c == alloc::EXCEEDED => Some("the work budget of a single case was exceeded".into()),
        End::Code(c) if *c == HUNG => Some("a case did not finish".into()),
        End::Timeout => Some("a case did not finish".into()),
        // abort inside a guarded panic
        End::Code(134) => Some("aborted".into()),
        _ => None,
    }
}

struct Known {
    property: String,
    probe: String,
    what: String,
}

fn known() -> Vec<Known> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let (a, r) = l.split_once(' ')?;
            let (b, w) = r.split_once(' ')?;
            Some(Known { property: a.strip_prefix("property=")?.into(), probe: b.strip_prefix("probe=")?.into(), what: w.into() })
        })
        .collect()
}

/// control characters escaped, so that reports stay plain text
fn visible(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_control() { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect()
}

fn save_replay(id: &str, name: &str, text: &str) -> PathBuf {
    let d = root().join("replays");
    let _ = fs::create_dir_all(&d);
    let p = d.join(name);
    let _ = fs::write(&p, text);
    println!("VIOLATION property={} replay={}", id, p.display());
    for l in text.lines().filter(|l| l.starts_with('#')).take(12) {
        println!("  {}", visible(&clip(l.trim_start_matches('#').trim(), 1500)));
    }
    p
}

fn parent(id: &str, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let dir = rundir(id);
    use_dict(&dir.join("dict"), &dict::build(&repo()));
    let mut violations = 0;
    let mut broken = false;

    // specific inputs
    let known = known();
    for pr in &p.probes {
        let err = dir.join("probe.err");
        let bad = if pr.isolated {
            let e = run_child(&["--probe".into(), id.into(), pr.key.into()], seed, Duration::from_secs(60), Some(&err));
            match (&e, died(&e)) {
                (_, Some(m)) => Some(m),
                (End::Code(0), _) => None,
                (End::Code(1), _) => Some(fs::read_to_string(&err).unwrap_or_default()),
                _ => {
                    eprintln!("probe {} gave no answer", pr.key);
                    broken = true;
                    None
                }
            }
        } else {
            install_hook();
            match guard(pr.f) {
                Ok(r) => r,
                Err(m) => Some(m),
            }
        };
        if let Some(m) = bad {
            match known.iter().find(|k| k.property == id && k.probe == pr.key) {
                Some(k) => println!("KNOWN-FINDING: property={} {} [{}]", id, k.what, pr.key),
                None => {
                    violations += 1;
                    let text = format!("property={}\nprobe={}\n# {}\n# {}\n", id, pr.key, pr.what, m.replace('\n', "\n# "));
                    save_replay(id, &format!("{}-{}.txt", id, pr.key), &text);
                }
            }
        }
    }

    // generated cases
    let tier = if thorough { "thorough" } else { "quick" };
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 760 });
    let end = run_child(&["--worker".into(), id.into(), tier.into(), dir.display().to_string()], seed, limit, Some(&dir.join("worker.err")));
    let mut coverage = fs::read_to_string(dir.join("report")).ok();
    match end {
        End::Code(0) => {
            for name in fs::read_to_string(dir.join("violations")).unwrap_or_default().lines() {
                violations += 1;
                let text = fs::read_to_string(dir.join(name)).unwrap_or_default();
                save_replay(id, name, &text);
            }
        }
        e => match died(&e) {
            Some(m) if !matches!(e, End::Timeout) => {
                if let Ok(t) = fs::read_to_string(dir.join("pending")) {
                    // an ordinary failure had been found; only its shrinking died
                    violations += 1;
                    save_replay(id, &format!("{}-{}.txt", id, seed), &t);
                } else if let Some(text) = attribute_crash(&p, thorough, seed, &dir) {
                    violations += 1;
                    save_replay(id, &format!("{}-crash-{}.txt", id, seed), &text);
                } else {
                    eprintln!("worker died ({}) and no case reproduces it", m);
                    broken = true;
                }
            }
            _ => {
                eprintln!("worker gave no answer");
                let mut s = String::new();
                if let Ok(mut f) = fs::File::open(dir.join("worker.err")) {
                    let _ = f.read_to_string(&mut s);
                }
                eprintln!("{}", clip(&s, 3000));
                broken = true;
            }
        },
    }

    if thorough && !broken {
        if let Ok(exe) = std::env::var("FCHECK_GUIDED") {
            let (parts, texts) = guided_stage(Path::new(&exe), &p, seed, &dir);
            for (name, text) in texts {
                violations += 1;
                save_replay(id, &name, &text);
            }
            if let Some(c) = coverage.as_mut() {
                c.push_str(&format!(", \"guided\": [{}]", parts.join(", ")));
            }
        }
    }

    if coverage.is_none() {
        coverage = Some("\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"run ended early by a case that killed the process\", \"samples\": []".to_string());
    }
    let _ = fs::create_dir_all(root().join("evidence"));
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(id),
        json_str(tier),
        seed,
        coverage.unwrap(),
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    fs::write(root().join("evidence").join(format!("{}.json", id)), ev).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    if violations > 0 {
        1
    } else if broken {
        2
    } else {
        println!("OK property={} tier={} seed={} wall={:.1}s", id, tier, seed, t0.elapsed().as_secs_f64());
        0
    }
}

/// Coverage-guided search, every check of the property in turn on all processors.
fn guided_stage(exe: &Path, p: &Prop, seed: u64, dir: &Path) -> (Vec<String>, Vec<(String, String)>) {
    let mut parts = vec![];
    let mut texts = vec![];
    let secs = (std::env::var("FCHECK_GUIDED_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(240.0) * scale()).max(2.0) as u64;
    for (ci, c) in p.checks.iter().enumerate() {
        // the program under test runs in a process of its own: nothing to be guided by
        if p.id == "C24" {
            continue;
        }
        let outs: Vec<PathBuf> = (0..threads()).map(|n| dir.join(format!("g{}.{}", ci, n))).collect();
        let ends: Vec<End> = std::thread::scope(|s| {
            let hs: Vec<_> = outs
                .iter()
                .enumerate()
                .map(|(n, out)| {
                    let args: Vec<String> = ["--guided".into(), p.id.to_string(), ci.to_string(), n.to_string(), secs.to_string(), out.display().to_string()].into();
                    s.spawn(move || run_exe(exe, &args, seed, Duration::from_secs(secs + 400), None))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut found = None;
        let (mut evals, mut nontrivial, mut corpus, mut edges, mut total) = (0u64, 0u64, 0u64, 0u64, 0u64);
        for (n, (e, out)) in ends.iter().zip(&outs).enumerate() {
            let get = |x: &str| fs::read_to_string(out.with_extension(x)).ok();
            let stats: Vec<u64> = get("stats").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if let [a, b, c, d, t] = stats[..] {
                evals += a;
                nontrivial += b;
                corpus = corpus.max(c);
                edges = edges.max(d);
                total = t;
            }
            if found.is_some() {
                continue;
            }
            found = get("violation").or_else(|| get("pending"));
            if found.is_none() && died(e).is_some() {
                // SIZE guided:SEED:TAPE
                found = get("case").and_then(|t| {
                    let (size, case) = t.trim_end_matches('#').split_once(' ')?;
                    shrink_crash(p, ci, case, size.parse().ok()?, seed, dir)
                });
                if found.is_none() {
                    eprintln!("guided search {} of {} died and its last case does not reproduce it", n, c.name);
                }
            }
        }
        if let Some(text) = found {
            texts.push((format!("{}-{}-guided-{}.txt", p.id, c.name, seed), text));
        }
        parts.push(format!(
            "{{\"check\": {}, \"seconds\": {}, \"processes\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"largest_corpus\": {}, \"edge_counters_hit\": {}, \"edge_counters\": {}}}",
            json_str(c.name),
            secs,
            threads(),
            evals,
            nontrivial,
            corpus,
            edges,
            total
        ));
    }
    (parts, texts)
}

/// Find which in-flight case killed the worker, shrink it in child processes.
fn attribute_crash(p: &Prop, thorough: bool, seed: u64, dir: &Path) -> Option<String> {
    let b = fs::read(dir.join("cur")).ok()?;
    let mut cands: Vec<(u64, u64)> = b
        .chunks(16)
        .filter(|c| c.len() == 16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .filter(|c| c.0 != 0)
        .collect();
    cands.sort();
    cands.into_iter().find_map(|(ci, idx)| shrink_crash(p, (ci - 1) as usize, &format!("seed:{}", idx), size_for(thorough, idx), seed, dir))
}

/// Runs one case in a child process; if it kills that, shrinks it.
fn shrink_crash(p: &Prop, ci: usize, case: &str, size: usize, seed: u64, dir: &Path) -> Option<String> {
    let sink = dir.join("tape");
    let run = |case: String, secs: u64| {
        let args = ["--one".into(), p.id.into(), ci.to_string(), case, size.to_string(), sink.display().to_string()];
        run_child(&args, seed, Duration::from_secs(secs), None)
    };
    let e = run(case.to_string(), 40);
    let msg = died(&e)?;
    let tape: Vec<u64> = fs::read(&sink).ok()?.chunks(8).filter(|c| c.len() == 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let slow = matches!(e, End::Timeout);
    let t = shrink_tape(tape, if slow { 20 } else { 400 }, 120, &mut |c| {
        let s: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let s = s.join(",");
        if s.len() > 100_000 {
            return None;
        }
        died(&run(s, 10)).map(|_| c.to_vec())
    });
    Some(replay_text(p.id, p.checks[ci].name, size, &t, &msg))
}

fn replay(path: &Path) -> i32 {
    let t = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
    let id = get("property").expect("property");
    let p = find(&id);
    let e = if let Some(k) = get("probe") {
        let err = std::env::temp_dir().join(format!("fcheck.replay.{}", std::process::id()));
        let e = run_child(&["--probe".into(), id.clone(), k], 1, Duration::from_secs(60), Some(&err));
        print!("{}", fs::read_to_string(&err).unwrap_or_default());
        let _ = fs::remove_file(&err);
        e
    } else {
        let check = get("check").expect("check");
        let ci = p.checks.iter().position(|c| c.name == check).expect("no such check");
        let dict = std::env::temp_dir().join(format!("fcheck.dict.{}", std::process::id()));
        use_dict(&dict, &get("dict").unwrap_or_default());
        let err = std::env::temp_dir().join(format!("fcheck.replay.{}", std::process::id()));
        let e = run_child(
            &["--one".into(), id.clone(), ci.to_string(), get("tape").unwrap_or_default(), get("size").unwrap_or_else(|| "1".into())],
            1,
            Duration::from_secs(60),
            Some(&err),
        );
        print!("{}", clip(&fs::read_to_string(&err).unwrap_or_default(), 5000));
        let _ = fs::remove_file(&err);
        let _ = fs::remove_file(&dict);
        e
    };
    match (&e, died(&e)) {
        (End::Code(0), _) => {
            println!("the replay passes");
            0
        }
        (_, Some(m)) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
        _ => {
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    }
}
