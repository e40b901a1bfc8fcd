//! lsym: symbolic execution of the LLVM IR rustc writes, with Z3.
//!
//! `lsym --ll FILE --jobs FILE --out DIR [--workers N] [--seconds S] ...`
//!
//! Every line of the jobs file is `<harness> [args...]`. Each job runs in a forked
//! child and leaves `DIR/<line number>.json`.
mod exec;
mod expr;
mod ir;
mod z3;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn inputs_json(v: &[(u32, u32, u32, u64)]) -> String {
    let p: Vec<String> = v.iter().map(|(a, b, w, x)| format!("[{a},{b},{w},{x}]")).collect();
    format!("[{}]", p.join(","))
}
fn notes_json(v: &[(u32, u64)]) -> String {
    let p: Vec<String> = v.iter().map(|(a, x)| format!("[{a},{x}]")).collect();
    format!("[{}]", p.join(","))
}

struct Opts {
    ll: String,
    jobs: String,
    out: String,
    workers: usize,
    seconds: f64,
    instrs: u64,
    paths: u64,
    short_ms: u32,
    long_ms: u32,
    dump: Option<(String, usize)>,
}

fn run_job(m: &ir::Module, line: &str, o: &Opts) -> String {
    let t0 = Instant::now();
    let mut parts = line.split_whitespace();
    let name = parts.next().unwrap_or("");
    let args: Vec<u64> = parts
        .map(|a| {
            if let Some(h) = a.strip_prefix("0x") {
                u64::from_str_radix(h, 16).expect("hex argument")
            } else {
                a.parse().expect("numeric argument")
            }
        })
        .collect();
    let mut solver = z3::Solver::new(o.short_ms, o.long_ms);
    solver.dump = o.dump.clone();
    let limits = exec::Limits { instrs: o.instrs, paths: o.paths, seconds: o.seconds, violations: 3 };
    let mut ex = exec::Exec::new(m, solver, limits);
    ex.run(name, &args);
    let r = &ex.rep;
    let s = &ex.solver.stats;
    let status = if !r.violations.is_empty() {
        "violation"
    } else if r.abort.is_some() {
        "inconclusive"
    } else {
        "ok"
    };
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{},\"notes\":{},\"stack\":[{}]}}",
                esc(&v.kind),
                v.id,
                esc(&v.msg),
                inputs_json(&v.inputs),
                notes_json(&v.notes),
                v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let samples: Vec<String> = r
        .samples
        .iter()
        .map(|(i, n)| format!("{{\"inputs\":{},\"notes\":{}}}", inputs_json(i), notes_json(n)))
        .collect();
    let reach: Vec<String> = r.reach.iter().map(|(k, v)| format!("[{k},{v}]")).collect();
    let funcs: Vec<String> = r.funcs.iter().map(|f| esc(f)).collect();
    format!(
        "{{\"job\":{},\"status\":\"{}\",\"reason\":{},\"paths\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"folded\":{},\"by_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"guessed\":{},\"ints\":{},\"solver_ms\":{:.2},\"max_query_ms\":{:.2},\"wall_ms\":{:.1},\"terms\":{},\"reach\":[{}],\"violations\":[{}],\"samples\":[{}],\"funcs\":[{}]}}",
        esc(line),
        status,
        r.abort.as_deref().map_or("null".into(), esc),
        r.paths,
        r.instrs,
        r.forks,
        r.asserts,
        r.folded,
        r.by_solver,
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.hard,
        s.guessed,
        s.ints,
        s.ms,
        s.max_ms,
        t0.elapsed().as_secs_f64() * 1000.0,
        expr::ctx().nodes.len(),
        reach.join(","),
        viol.join(","),
        samples.join(","),
        funcs.join(",")
    )
}

fn real_main() {
    let mut o = Opts {
        ll: String::new(),
        jobs: String::new(),
        out: String::new(),
        workers: 8,
        seconds: 300.0,
        instrs: 4_000_000_000,
        paths: 5_000_000,
        short_ms: 30,
        long_ms: 60000,
        dump: None,
    };
    let mut a = std::env::args().skip(1);
    let mut mem_gb = 8u64;
    let mut dump_dir = None;
    let mut dump_cap = 20;
    // Seconds the other jobs have left once one found a violation.
    let mut grace: Option<f64> = None;
    while let Some(k) = a.next() {
        if k == "--version" {
            println!("{}", z3::version());
            return;
        }
        let mut v = || a.next().expect("option value");
        match k.as_str() {
            "--ll" => o.ll = v(),
            "--jobs" => o.jobs = v(),
            "--out" => o.out = v(),
            "--workers" => o.workers = v().parse().unwrap(),
            "--seconds" => o.seconds = v().parse().unwrap(),
            "--instrs" => o.instrs = v().parse().unwrap(),
            "--paths" => o.paths = v().parse().unwrap(),
            "--short-ms" => o.short_ms = v().parse().unwrap(),
            "--long-ms" => o.long_ms = v().parse().unwrap(),
            "--mem-gb" => mem_gb = v().parse().unwrap(),
            "--dump" => dump_dir = Some(v()),
            "--grace" => grace = Some(v().parse().unwrap()),
            "--dump-cap" => dump_cap = v().parse().unwrap(),
            _ => panic!("unknown option {k}"),
        }
    }
    o.dump = dump_dir.map(|d| (d, dump_cap));
    let m = ir::Module::load(std::fs::read_to_string(&o.ll).expect("IR file"));
    let jobs: Vec<String> = std::fs::read_to_string(&o.jobs)
        .expect("jobs file")
        .lines()
        .map(|l| l.trim().to_string())
        .collect();
    std::fs::create_dir_all(&o.out).expect("output directory");
    let mut running: HashMap<i32, usize> = HashMap::new();
    let mut next = 0;
    let mut failed = 0;
    let mut found: Option<Instant> = None;
    while next < jobs.len() || !running.is_empty() {
        if let (Some(t), Some(g)) = (found, grace) {
            if t.elapsed().as_secs_f64() > g {
                for &pid in running.keys() {
                    unsafe { kill(pid, 9) };
                }
                next = jobs.len();
            }
        }
        while running.len() < o.workers && next < jobs.len() {
            let i = next;
            next += 1;
            if jobs[i].is_empty() {
                continue;
            }
            let path = format!("{}/{}.json", o.out, i);
            let _ = std::fs::remove_file(&path);
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    let lim = [mem_gb << 30, mem_gb << 30];
                    setrlimit(9, &lim); // RLIMIT_AS
                }
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(&m, &jobs[i], &o)));
                let code = match ok {
                    Ok(s) => {
                        let tmp = format!("{path}.tmp");
                        std::fs::write(&tmp, s).expect("write result");
                        std::fs::rename(&tmp, &path).expect("rename result");
                        0
                    }
                    Err(_) => 3,
                };
                unsafe { _exit(code) };
            }
            assert!(pid > 0, "fork failed");
            running.insert(pid, i);
        }
        if running.is_empty() {
            continue;
        }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, (found.is_some() && grace.is_some()) as i32) };
        if p == 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        if let Some(i) = running.remove(&p) {
            if st == 0 && found.is_none() {
                let r = std::fs::read_to_string(format!("{}/{}.json", o.out, i)).unwrap_or_default();
                if r.contains("\"status\":\"violation\"") {
                    found = Some(Instant::now());
                }
            }
            if st != 0 {
                failed += 1;
                eprintln!("job {i} ({}) died with status {st:#x}", jobs[i]);
            }
        }
    }
    if failed > 0 {
        std::process::exit(3);
    }
}

fn main() {
    if std::env::var_os("LSYM_PANIC").is_none() {
        // Instructions that do not parse are reported when a path reaches them.
        std::panic::set_hook(Box::new(|_| ()));
    }
    // Terms nest deeply: a large stack for the recursive walks.
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).expect("thread");
    if t.join().is_err() {
        std::process::exit(3);
    }
}
