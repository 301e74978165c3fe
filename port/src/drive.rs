//! Starts the interpreted shards, runs the same executions natively and compares.
use port::{parse, spaces, Out, Tok};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::Instant;

const SHARDS: usize = 8;

/// What the executions of a class run on.
fn machine(class: &str) -> &'static str {
    match class {
        "asan" => "native, AddressSanitizer",
        "msan" => "native, MemorySanitizer (also the standard library)",
        "tsan" => "native, ThreadSanitizer (also the standard library)",
        "wasm" => "WebAssembly: 32 bits, no SSE2",
        "mem" => "i586 (32 bits, no SSE2), interpreted: memory, validity, aliasing, races",
        _ => "i586 (32 bits, no SSE2), interpreted: memory",
    }
}
fn here() -> String {
    std::env::var("PORT_DIR").expect("PORT_DIR")
}
fn command(class: &str, args: &[String]) -> Command {
    let h = here();
    match class {
        "asan" | "msan" | "tsan" => {
            let mut c = Command::new(format!("{}/../target/{}/x86_64-unknown-linux-gnu/release/port", h, class));
            c.args(args)
                .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1")
                .env("MSAN_OPTIONS", "allocator_may_return_null=1")
                .env("TSAN_OPTIONS", "halt_on_error=1:allocator_may_return_null=1");
            c
        }
        "wasm" => {
            let mut c = Command::new("node");
            c.arg(format!("{}/run.js", h)).arg(format!("{}/../target/wasm/wasm32-unknown-unknown/release/port.wasm", h));
            // PROP TIER, then SHARD NSHARDS SECONDS or leaf SPACE INDEX
            if args[0] == "leaf" {
                c.args([&args[1], &args[2], &args[0], &args[3], &args[4]]);
            } else {
                c.args([&args[1], &args[2], &args[4], &args[5], &args[6]]);
            }
            c
        }
        _ => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--quiet", "--offline", "--target", "i586-unknown-linux-gnu", "--manifest-path"])
                .arg(format!("{}/Cargo.toml", h))
                .arg("--")
                .args(args)
                .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-deterministic-floats {}", if class == "mem" { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation" }))
                .env_remove("RUSTFLAGS")
                .env_remove("RUSTUP_TOOLCHAIN")
                .env("CARGO_NET_OFFLINE", "true")
                .env("XDG_CACHE_HOME", format!("{}/../target/cache", h))
                .env("CARGO_TARGET_DIR", format!("{}/../target/miri-{}", h, class));
            c
        }
    }
}
fn prepare(class: &str) -> Result<(), String> {
    let o = Command::new("bash").arg(format!("{}/prepare.sh", here())).arg(class).output().map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(());
    }
    Err(String::from_utf8_lossy(&o.stderr).into_owned())
}

struct Shard {
    /// (space, index) -> operations and observations
    done: Vec<(String, usize, u64, Vec<Tok>)>,
    open: Option<(String, usize)>,
    finished: bool,
    timed_out: bool,
    err: String,
    /// Executions that trapped (the process went on).
    traps: Vec<(String, usize, String)>,
}
const SIGILL: i32 = 4;
const SIGABRT: i32 = 6;
const SIGSEGV: i32 = 11;
fn collect(mut c: Command) -> Shard {
    let mut s = Shard { done: vec![], open: None, finished: false, timed_out: false, err: String::new(), traps: vec![] };
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("cargo miri");
    let mut e = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    for l in BufReader::new(ch.stdout.take().unwrap()).lines().map_while(Result::ok) {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "L" if w.len() == 3 => s.open = Some((w[1].to_string(), w[2].parse().unwrap_or(0))),
            "V" => {
                if let Some((n, i)) = s.open.take() {
                    let toks = w[2..].iter().filter(|x| !x.is_empty()).filter_map(|x| parse(x)).collect();
                    s.done.push((n, i, w[1].parse().unwrap_or(0), toks));
                }
            }
            "X" => {
                if let Some((n, i)) = s.open.take() {
                    s.traps.push((n, i, w[1..].join(" ")));
                }
            }
            "T" => s.timed_out = true,
            "E" => s.finished = true,
            _ => (),
        }
    }
    let st = ch.wait().expect("wait");
    s.err = t.join().unwrap();
    if let Some(n @ (SIGILL | SIGABRT | SIGSEGV)) = st.signal() {
        s.err += &format!("\nkilled by signal {}\n", n);
    }
    if !st.success() {
        s.finished = false;
        s.timed_out = false;
    }
    s
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= tol * (1.0f64).max(a.abs().min(b.abs()))
}
fn same(a: &Tok, b: &Tok) -> bool {
    match (a, b) {
        (Tok::N(x), Tok::N(y)) => x == y,
        // silence is anything below -180 LUFS
        (Tok::L(x), Tok::L(y)) => close(*x, *y, 1e-7) || *x < -180.0 && *y < -180.0,
        (Tok::P(x), Tok::P(y)) => close(*x, *y, 1e-6),
        _ => false,
    }
}
fn differ(nat: &Out, toks: &[Tok]) -> Option<String> {
    if nat.toks.len() != toks.len() {
        return Some(format!("{} observations, natively {}", toks.len(), nat.toks.len()));
    }
    for (k, (a, b)) in nat.toks.iter().zip(toks).enumerate() {
        if !same(a, b) {
            let op = nat.marks.iter().filter(|m| **m <= k).count();
            return Some(format!("observation {} (operation {}) is {:?}, natively {:?}", k, op, b, a));
        }
    }
    None
}

fn native(sp: &spaces::Space, i: usize) -> Result<Out, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut o = Out::default();
        (sp.run)(i, &mut o);
        o
    }))
    .map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

/// What an interpreted process that failed says.
enum Verdict {
    Violation(String),
    /// The interpreter cannot execute the code (or could not run at all).
    Unknown(String),
}
fn verdict(err: &str) -> Verdict {
    let line = |k: &str| err.lines().find(|l| l.contains(k)).map(|l| l.trim().to_string());
    if let Some(l) = line("Undefined Behavior") {
        return Verdict::Violation(l);
    }
    for k in ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: ThreadSanitizer"] {
        if let Some(l) = line(k) {
            return Verdict::Violation(l);
        }
    }
    if let Some(l) = line("leaked") {
        return Verdict::Violation(l);
    }
    if let Some(l) = line("memory leaked") {
        return Verdict::Violation(l);
    }
    if let Some(l) = line("unsupported operation") {
        return Verdict::Unknown(l);
    }
    if let Some(p) = err.find("panicked at") {
        return Verdict::Violation(err[p..].lines().take(2).collect::<Vec<_>>().join(" "));
    }
    if let Some(l) = line("killed by signal") {
        return Verdict::Violation(l);
    }
    if let Some(l) = line("deadlock") {
        return Verdict::Violation(l);
    }
    Verdict::Unknown(err.lines().rev().find(|l| l.contains("error")).unwrap_or("the interpreter ended early").to_string())
}

struct Stat {
    executions: u64,
    transitions: u64,
    comparisons: u64,
    states: HashSet<u64>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str, tier: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| ()));
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let verif = std::fs::canonicalize(format!("{}/..", here())).unwrap().display().to_string();
    let budget: u64 = std::env::var("VK_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 280 } else { 200 });
    let mut all = spaces::spaces(prop, thorough);
    all.retain(|s| crate::wanted(s.name));
    let runs: Vec<&str> = ["wasm", "asan", "msan", "tsan", "val", "mem"].into_iter().filter(|c| all.iter().any(|s| s.class == *c)).collect();
    let mut notes: Vec<String> = vec![];
    let mut violations: Vec<(String, usize, String, String)> = vec![];
    let mut out: Vec<String> = vec![];
    let (mut tot_e, mut tot_t, mut tot_c, mut tot_s) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut exhaustive = true;
    let mut nat: HashMap<(String, usize), Result<Out, String>> = HashMap::new();
    for class in runs {
        let t1 = Instant::now();
        if let Err(e) = prepare(class) {
            eprintln!("{}", e);
            match verdict(&e) {
                Verdict::Violation(v) => violations.push(("(start)".into(), 0, class.into(), v)),
                Verdict::Unknown(_) => {
                    println!("the build for {} failed", machine(class));
                    return 2;
                }
            }
        }
        let shards: Vec<Shard> = std::thread::scope(|s| {
            let h: Vec<_> = (0..SHARDS)
                .map(|k| {
                    let a: Vec<String> = ["run", prop, tier, class].iter().map(|s| s.to_string()).chain([k, SHARDS].map(|n| n.to_string())).chain([budget.to_string()]).collect();
                    s.spawn(move || collect(command(class, &a)))
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut ok = true;
        let mut stat: HashMap<String, Stat> = HashMap::new();
        for (k, s) in shards.iter().enumerate() {
            for (n, i, m) in &s.traps {
                violations.push((n.clone(), *i, class.into(), m.clone()));
            }
            for (n, i, ops, toks) in &s.done {
                let sp = all.iter().find(|x| x.name == n).unwrap();
                let o = nat.entry((n.clone(), *i)).or_insert_with(|| native(sp, *i));
                let st = stat.entry(n.clone()).or_insert(Stat { executions: 0, transitions: 0, comparisons: 0, states: HashSet::new() });
                st.executions += 1;
                st.transitions += ops;
                match o {
                    Err(e) => violations.push((n.clone(), *i, class.into(), format!("panic in the native run: {}", e))),
                    Ok(o) => {
                        st.comparisons += o.marks.len() as u64;
                        let mut last = 0;
                        for m in &o.marks {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            for t in &o.toks[last..*m] {
                                port::print(t).hash(&mut h);
                            }
                            last = *m;
                            st.states.insert(h.finish());
                        }
                        if let Some(d) = differ(o, toks) {
                            violations.push((n.clone(), *i, class.into(), format!("{}: {}", machine(class), d)));
                        }
                    }
                }
                if samples.len() < 6 && *i % 97 == 5 {
                    samples.push(format!("{{\"space\":{},\"execution\":{},\"operations\":{}}}", js(n), i, ops));
                }
            }
            if s.timed_out {
                ok = false;
                notes.push(format!("{}: shard {} ran out of time", machine(class), k));
            } else if !s.finished {
                ok = false;
                match verdict(&s.err) {
                    Verdict::Violation(v) => {
                        let (n, i) = s.open.clone().unwrap_or(("(end)".into(), k));
                        eprintln!("{}", s.err);
                        violations.push((n, i, class.into(), v));
                    }
                    Verdict::Unknown(v) => notes.push(format!("{}: shard {}: {}", machine(class), k, v)),
                }
            }
        }
        exhaustive &= ok;
        for sp in all.iter().filter(|s| s.class == class) {
            if let Some(st) = stat.get(sp.name) {
                let complete = st.executions == sp.count as u64;
                exhaustive &= complete;
                out.push(format!(
                    "{{\"space\":{},\"machine\":{},\"bound\":{},\"complete\":{},\"executions\":{},\"of\":{},\"states\":{},\"transitions\":{},\"comparisons\":{}}}",
                    js(sp.name), js(machine(class)), js(&sp.bound), complete, st.executions, sp.count, st.states.len(), st.transitions, st.comparisons
                ));
                eprintln!("{} {} {}: {}/{} executions, {} operations, {} states", prop, class, sp.name, st.executions, sp.count, st.transitions, st.states.len());
                tot_e += st.executions;
                tot_t += st.transitions;
                tot_c += st.comparisons;
                tot_s += st.states.len() as u64;
            }
        }
        eprintln!("{} {}: {:.0} s", prop, class, t1.elapsed().as_secs_f64());
    }
    for n in &notes {
        eprintln!("note: {}", n);
    }
    violations.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    let mut shown = HashSet::new();
    for (n, i, class, what) in &violations {
        if !shown.insert(n.clone()) {
            continue;
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", verif));
        let f = format!("{}/replays/{}-{}-{}.txt", verif, prop, n.replace(['(', ')'], ""), i);
        let _ = std::fs::write(&f, format!("port\nproperty {}\ntier {}\nspace {}\nexecution {}\nclass {}\nwhat {}\n", prop, tier, n, i, class, what));
        println!("space {}: {}", n, what);
        println!("VIOLATION property={} replay={}", prop, f);
    }
    let ev = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"comparisons\":{},\"rule\":\"every trace is one execution of the real code on another machine (see each space; under AddressSanitizer or an interpreter that checks every memory access), all its observations are compared with the plain native execution; states are the distinct observation vectors after an operation\",\"exhaustive\":{},\"spaces\":[{}],\"samples\":[{}],\"notes\":[{}]}},\"assumptions\":[\"the interpreter (Miri), AddressSanitizer and the WebAssembly engine are right\",\"operations, lengths and depths beyond the stated bounds are not covered\"],\"wall_s\":{:.1},\"violations\":{}}}\n",
        prop, tier, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), tot_s, tot_t, tot_e, tot_c, exhaustive, out.join(","), samples.join(","), notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), violations.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    std::fs::write(format!("{}/evidence/{}.json", verif, prop), ev).unwrap();
    println!("{} {}: {} executions, {} states, {} operations, {:.0} s, complete={}", prop, tier, tot_e, tot_s, tot_t, t0.elapsed().as_secs_f64(), exhaustive);
    !violations.is_empty() as i32
}

pub fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).unwrap();
    let g = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    let (prop, tier, space, i, class) = (g("property "), g("tier "), g("space "), g("execution "), g("class "));
    if let Err(e) = prepare(&class) {
        println!("{}", e);
        return 2;
    }
    let all = spaces::spaces(&prop, tier == "thorough");
    let Some(sp) = all.iter().find(|x| x.name == space) else {
        println!("{}: a whole shard ({})", space, g("what "));
        return 2;
    };
    println!("{}: {}, execution {}", prop, sp.bound, i);
    let r = collect(command(&class, &["leaf".into(), prop.clone(), tier, space, i.clone()]));
    if !r.finished || !r.traps.is_empty() {
        println!("{:?}", r.traps);
        println!("{}", r.err);
        println!("VIOLATION property={} replay={}", prop, file);
        return 1;
    }
    let why = match native(sp, i.parse().unwrap()) {
        Err(e) => Some(e),
        Ok(o) => r.done.first().and_then(|d| differ(&o, &d.3)),
    };
    match why {
        Some(w) => {
            println!("{}\nVIOLATION property={} replay={}", w, prop, file);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}
