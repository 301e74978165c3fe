//! Parent/child supervision, verdicts, evidence and replay.
use crate::explore::*;
use crate::props;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

pub fn verif_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn csv(c: &[u32]) -> String {
    if c.is_empty() {
        return "-".into();
    }
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn uncsv(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().expect("choice")).collect()
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

/// Longest time one execution may take before it counts as a hang.
const HANG: Duration = Duration::from_secs(60);

pub fn main(args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &args[3]),
        Some("child") => child(&args[2], &args[3], Path::new(&args[4]), args[5].parse().unwrap(), Path::new(&args[6])),
        Some("one") => one(&args[2], &args[3], args[4].parse().unwrap(), &uncsv(&args[5])),
        Some("replay") => replay(Path::new(&args[2])),
        Some("list") => {
            for p in props::ids() {
                println!("{}", p);
                for s in props::spaces(p, args.get(2).map_or("quick", |s| s)) {
                    println!("  {} : {}", s.name, s.bound);
                }
            }
            0
        }
        Some("aux") => props::aux(&args[2..]),
        _ => {
            eprintln!("usage: vk check ID TIER | replay FILE | list [TIER]");
            2
        }
    }
}

fn write_replay(id: &str, tier: &str, build: &str, idx: usize, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}-{}.txt", id, build, v.space, std::process::id()));
    let mut s = format!(
        "property={}\ntier={}\nbuild={}\nspace={}\nindex={}\nchoices={}\n# {}\n",
        id,
        tier,
        build,
        v.space,
        idx,
        csv(&v.choices),
        v.message.replace('\n', " ")
    );
    for l in &v.trace {
        s.push_str(&format!("#   {}\n", l));
    }
    s.push_str("# replay with: bash /verif/replay.sh <this file>\n");
    let _ = std::fs::write(&p, s);
    p
}

fn report(id: &str, tier: &str, build: &str, idx: usize, v: &Violation) {
    let p = write_replay(id, tier, build, idx, v);
    println!("space {}: {}", v.space, v.message);
    for l in v.trace.iter().take(40) {
        println!("    {}", l);
    }
    println!("VIOLATION property={} replay={}", id, p.display());
    let _ = std::io::stdout().flush();
}

/// What one exploring process covered, handed to the parent as text lines.
#[derive(Default)]
struct Part {
    states: u64,
    transitions: u64,
    executions: u64,
    checks: u64,
    ambiguous: u64,
    violations: u64,
    complete: bool,
    spaces: Vec<String>,
    samples: Vec<String>,
    notes: Vec<String>,
}

fn part(spaces: &[(String, String, Explored)], tier: &str, violations: usize, notes: &[String]) -> Part {
    let mut p = Part { complete: true, violations: violations as u64, notes: notes.to_vec(), ..Part::default() };
    for (n, b, e) in spaces {
        p.complete &= e.complete;
        p.states += e.ctr.states.len() as u64;
        p.spaces.push(format!(
            "{{\"space\":{},\"build\":{},\"tier\":{},\"bound\":{},\"complete\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"comparisons\":{},\"distinct_outcomes\":{},\"ambiguous_skipped\":{},\"max_choices\":{},\"state_count_capped\":{},\"wall_s\":{:.2}}}",
            esc(n), esc(BUILD), esc(tier), esc(b), e.complete, e.ctr.executions, e.ctr.states.len(), e.ctr.transitions,
            e.ctr.checks, e.ctr.outcomes.len(), e.ctr.ambiguous, e.ctr.max_depth, e.ctr.capped, e.wall
        ));
        for (c, l) in &e.samples {
            if p.samples.len() < 12 {
                let l: Vec<_> = l.iter().take(30).map(|x| esc(x)).collect();
                p.samples.push(format!("{{\"space\":{},\"choices\":{},\"steps\":[{}]}}", esc(n), esc(&csv(c)), l.join(",")));
            }
        }
        p.transitions += e.ctr.transitions;
        p.executions += e.ctr.executions;
        p.checks += e.ctr.checks;
        p.ambiguous += e.ctr.ambiguous;
    }
    p
}

impl Part {
    fn write(&self, path: &Path) {
        let mut s = format!(
            "counts {} {} {} {} {} {} {}\n",
            self.states, self.transitions, self.executions, self.checks, self.ambiguous, self.violations, self.complete as u64
        );
        for (k, l) in [("space", &self.spaces), ("sample", &self.samples), ("note", &self.notes)] {
            for x in l {
                s.push_str(&format!("{} {}\n", k, x.replace('\n', " ")));
            }
        }
        let _ = std::fs::write(path, s);
    }

    /// Adds what the process left in `path`; false if there is nothing.
    fn read(&mut self, path: &Path) -> bool {
        let s = match std::fs::read_to_string(path) {
            Ok(s) if s.ends_with('\n') => s,
            _ => return false,
        };
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "counts" => {
                    let n: Vec<u64> = v.split(' ').filter_map(|x| x.parse().ok()).collect();
                    self.states += n[0];
                    self.transitions += n[1];
                    self.executions += n[2];
                    self.checks += n[3];
                    self.ambiguous += n[4];
                    self.violations += n[5];
                    self.complete &= n[6] == 1;
                }
                "space" => self.spaces.push(v.into()),
                "sample" if self.samples.len() < 12 => self.samples.push(v.into()),
                "note" if !self.notes.iter().any(|x| x == v) => self.notes.push(v.into()),
                _ => (),
            }
        }
        true
    }
}

fn evidence(id: &str, tier: &str, wall: f64, p: &Part) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let assumptions: Vec<_> = props::assumptions(id).iter().map(|s| esc(s)).collect();
    let ex: Vec<_> = p.notes.iter().map(|s| esc(s)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"comparisons\":{},\"rule\":{},\"ambiguous_skipped\":{},\"exhaustive\":{},\"spaces\":[{}],\"samples\":[{}],\"notes\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(id), esc(tier), seed, esc(props::level(id)), p.states, p.transitions, p.executions, p.checks,
        esc("every trace is one complete choice sequence of a closed system run on the real code in lock-step with the oracle; comparisons counts full state comparisons, states the distinct (model) states reached per space and build; each space lists the build of the library and the tier of its bounds"),
        p.ambiguous, p.complete, p.spaces.join(","), p.samples.join(","), ex.join(","), assumptions.join(","), wall, p.violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", id));
    if std::fs::write(&tmp, s).is_ok() {
        let _ = std::fs::rename(&tmp, dir.join(format!("{}.json", id)));
    }
}

/// How this executable and the library in it were built.
pub const BUILD: &str = if cfg!(feature = "precise") {
    "precise"
} else if cfg!(debug_assertions) {
    "release"
} else {
    "plain"
};

/// The builds a property is checked on, each with the tier of the bounds and the seconds it may take:
/// with debug assertions and overflow checks; as users build it; with fused multiply-add in the interpolator.
fn stages(id: &str, tier: &str) -> Vec<(&'static str, &'static str, u64)> {
    let mut v = if tier == "thorough" {
        vec![("release", "thorough", 600), ("plain", "quick", 120)]
    } else {
        vec![("release", "quick", 240), ("plain", "quick", 200)]
    };
    if id == "C08" {
        v.push(("precise", "quick", 100));
    }
    v
}

fn exe(build: &str) -> PathBuf {
    let e = std::env::current_exe().unwrap();
    e.parent().unwrap().parent().unwrap().join(build).join(e.file_name().unwrap())
}

/// Explores every space of the property. Exit code 0 or 1.
fn child(id: &str, tier: &str, progress: &Path, budget: u64, out: &Path) -> i32 {
    crate::sys::child_limits(20 << 30);
    install_panic_hook();
    let f = std::fs::OpenOptions::new().read(true).write(true).open(progress).expect("progress file");
    let pr = Progress::new(crate::sys::map_shared(&f, SLOT * SLOTS));
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(budget);
    let spaces = props::spaces(id, tier);
    let only = std::env::var("VK_SPACE").ok();
    let verbose = std::env::var("VK_VERBOSE").is_ok();
    let mut done = vec![];
    let mut bad = 0;
    for (i, sp) in spaces.iter().enumerate() {
        if only.as_ref().map_or(false, |o| o != sp.name) {
            continue;
        }
        let e = explore(i, sp, threads(), deadline, &pr);
        if verbose {
            eprintln!(
                "{} {}: {} executions, {} states, {} transitions, {} comparisons, {} outcomes, {} ambiguous, {:.2}s{}",
                id, sp.name, e.ctr.executions, e.ctr.states.len(), e.ctr.transitions, e.ctr.checks,
                e.ctr.outcomes.len(), e.ctr.ambiguous, e.wall, if e.complete { "" } else { " INCOMPLETE" }
            );
        }
        let stop = if let Some(v) = &e.violation {
            report(id, tier, BUILD, i, v);
            bad += 1;
            true
        } else {
            false
        };
        done.push((sp.name.to_string(), sp.bound.clone(), e));
        if stop {
            break;
        }
    }
    let notes = props::notes(id);
    let tr: u64 = done.iter().map(|d| d.2.ctr.executions).sum();
    let st: usize = done.iter().map(|d| d.2.ctr.states.len()).sum();
    let amb: u64 = done.iter().map(|d| d.2.ctr.ambiguous).sum();
    println!(
        "{} {} ({} build): {} spaces, {} executions, {} states, {} comparisons, {} undecided, {:.1}s, complete={}",
        id, tier, BUILD, done.len(), tr, st,
        done.iter().map(|d| d.2.ctr.checks).sum::<u64>(), amb,
        t0.elapsed().as_secs_f64(), done.iter().all(|d| d.2.complete)
    );
    part(&done, tier, bad, &notes).write(out);
    let _ = std::io::stdout().flush();
    (bad > 0) as i32
}

fn one(id: &str, tier: &str, idx: usize, choices: &[u32]) -> i32 {
    crate::sys::child_limits(20 << 30);
    install_panic_hook();
    let spaces = props::spaces(id, tier);
    let mut c = Counters::default();
    let (r, _, _, log) = run_one(&spaces[idx].body, choices, &mut c, true);
    for l in log {
        println!("    {}", l);
    }
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("VIOLATED: {}", m);
            1
        }
    }
}

fn replay(p: &Path) -> i32 {
    let s = std::fs::read_to_string(p).expect("replay file");
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or_else(|| panic!("no {}", k)).to_string()
    };
    let b = s.lines().find_map(|l| l.strip_prefix("build=")).unwrap_or("release");
    if b != BUILD {
        let st = Command::new(exe(b)).arg("replay").arg(p).status().expect("run the build of the replay file");
        return st.code().unwrap_or(2);
    }
    one(&get("property"), &get("tier"), get("index").parse().unwrap(), &uncsv(&get("choices")))
}

fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn check(id: &str, tier: &str) -> i32 {
    if !props::ids().contains(&id) {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vk-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let only = std::env::var("VK_BUILD").ok();
    let limit: Option<u64> = std::env::var("VK_BUDGET").ok().and_then(|s| s.parse().ok());
    let mut total = Part { complete: true, ..Part::default() };
    let mut r = 0;
    for (build, bounds, secs) in stages(id, tier) {
        if only.as_ref().map_or(false, |o| o != build) {
            continue;
        }
        let f = dir.join(format!("part-{}", build));
        r = stage(id, bounds, build, limit.unwrap_or(secs), &dir, &f, t0);
        if !total.read(&f) {
            total.complete = false;
            total.violations += (r == 1) as u64;
        }
        if r != 0 {
            break;
        }
    }
    for n in &total.notes {
        println!("{}", n);
    }
    evidence(id, tier, t0.elapsed().as_secs_f64(), &total);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// Runs one exploring process to its end and judges how it ended.
fn stage(id: &str, tier: &str, build: &str, secs: u64, dir: &Path, out: &Path, start: Instant) -> i32 {
    let t0 = Instant::now();
    let exe = exe(build);
    let prog = dir.join("progress");
    std::fs::write(&prog, vec![0u8; SLOT * SLOTS]).unwrap();
    let f = std::fs::OpenOptions::new().read(true).write(true).open(&prog).unwrap();
    let pr = Progress::new(crate::sys::map_shared(&f, SLOT * SLOTS));
    let mut c = match Command::new(&exe).args(["child", id, tier]).arg(&prog).arg(secs.to_string()).arg(out).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run {}: {}", exe.display(), e);
            return 2;
        }
    };

    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let hard = Duration::from_secs(secs + 60);
    let mut hung = None;
    let status = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break Some(s);
        }
        for (i, s) in seen.iter_mut().enumerate() {
            let (seq, active, _, _) = pr.read(i);
            if seq != s.0 || !active {
                *s = (seq, Instant::now());
            } else if s.1.elapsed() > HANG && hung.is_none() {
                hung = Some(i);
            }
        }
        if hung.is_some() || t0.elapsed() > hard {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let code = status.and_then(|s| s.code());
    match code {
        Some(0) => 0,
        Some(1) => 1,
        _ => {
            // The exploring process died or hung: replay what its threads were working on.
            let how = match (&status, hung) {
                (Some(s), _) => format!("exploring process ended with {}", s),
                (None, Some(_)) => format!("no progress for {:?}", HANG),
                (None, None) => "exploring process exceeded its time".into(),
            };
            let mut cases: Vec<(usize, Vec<u32>)> = vec![];
            let order: Vec<usize> = hung.into_iter().chain(0..SLOTS).collect();
            for i in order {
                let (seq, active, sp, ch) = pr.read(i);
                if seq > 0 && active && !cases.contains(&(sp, ch.clone())) {
                    cases.push((sp, ch));
                }
            }
            let spaces = props::spaces(id, tier);
            let mut verdict = None;
            for (sp, choices) in cases {
                if start.elapsed() > Duration::from_secs(800) {
                    break;
                }
                let mut c = Command::new(&exe)
                    .args(["one", id, tier, &sp.to_string(), &csv(&choices)])
                    .stdout(std::process::Stdio::null())
                    .spawn()
                    .unwrap();
                let end = wait(&mut c, HANG);
                let message = match end {
                    Some(s) if s.code() == Some(0) => continue,
                    Some(s) if s.code() == Some(1) => "violated when replayed".to_string(),
                    Some(s) => format!("the process is killed ({}) by this case", s),
                    None => format!("this case does not finish within {:?}", HANG),
                };
                verdict = Some((
                    sp,
                    Violation { space: spaces[sp].name.into(), choices, message: format!("{}; {}", how, message), trace: vec![] },
                ));
                break;
            }
            match verdict {
                Some((sp, v)) => {
                    report(id, tier, build, sp, &v);
                    1
                }
                None => {
                    eprintln!("{}: {} and no case reproduces it", id, how);
                    2
                }
            }
        }
    }
}
