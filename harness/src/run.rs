//! kmsh: runs scripts of calls on the real kms crate and records what it observes.
//!
//!   kmsh exec IN OUT [--order fwd|rev|shuffle:N] [--threads N] [--race] [--fork] [--hostile N]
//!
//! With --fork the first quarter of the sessions runs in this process, which then forks;
//! parent and child both run the rest, the child recording in OUT.child.
//!
//! With --hostile the environment, the clocks and the threads' names are strange (host.rs).
//!
//! IN has one session per line: {"id":"..","evs":[{"op":..},..]}; OUT has the same
//! sessions with every event completed by the observed objects and results.
use crate::json::{self, V};
use crate::ops;
use std::io::{BufRead, Write};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Barrier, Mutex};

extern "C" { fn fork() -> i32; fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32; fn _exit(c: i32) -> !; }

fn run_session(s: &V) -> V {
    let evs = s.at("evs").arr();
    let mut w = ops::World::new();
    let out: Vec<V> = evs.iter().map(|e| w.step(e)).collect();
    let mut o = vec![("id".to_string(), s.at("id").clone())];
    o.push(("evs".to_string(), V::Arr(out)));
    V::Obj(o)
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    assert!(a.len() >= 4 && a[1] == "exec", "usage: kmsh exec IN OUT [...]");
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    // a panic in the code under test is an observation; one in this harness is an error of the harness
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<u8>() { return }
        if let Some(l) = i.location() { if l.file().starts_with("src/") { eprintln!("kmsh: {}", i); std::process::exit(70) } }
    }));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("open script"))
        .lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let mut order: Vec<usize> = (0..lines.len()).collect();
    match opt("--order").as_deref() {
        Some("rev") => order.reverse(),
        Some(s) if s.starts_with("shuffle:") => {
            let mut x: u64 = s[8..].parse::<u64>().unwrap() * 2 + 1;
            for i in (1..order.len()).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                order.swap(i, ((x >> 33) as usize) % (i + 1));
            }
        }
        _ => {}
    }
    if let Some(n) = opt("--hostile") { crate::host::set(n.parse().unwrap()) }
    let threads: usize = opt("--threads").map(|s| s.parse().unwrap()).unwrap_or(1);
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("create log")));
    // progress file: which session a thread is working on, so that a crash or hang can be attributed
    let prog = format!("{}.cur", a[3]);
    let emit = |v: &V| { let mut s = String::new(); v.write(&mut s); s.push('\n'); out.lock().unwrap().write_all(s.as_bytes()).unwrap() };
    if a.iter().any(|x| x == "--fork") {
        let k = (lines.len() + 3) / 4;
        for l in &lines[..k] { emit(&run_session(&json::parse(l))) }
        out.lock().unwrap().flush().unwrap();
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        let rest: Vec<V> = lines[k..].iter().map(|l| run_session(&json::parse(l))).collect();
        if pid == 0 {
            let mut s = String::new();
            for v in &rest { v.write(&mut s); s.push('\n') }
            std::fs::write(format!("{}.child", a[3]), s).unwrap();
            unsafe { _exit(0) }
        }
        for v in &rest { emit(v) }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0); }
        if st != 0 { out.lock().unwrap().flush().unwrap(); std::process::abort() }
    } else if threads == 1 && crate::host::level() == 0 && !a.iter().any(|x| x == "--race") {
        for &i in &order {
            let s = json::parse(&lines[i]);
            std::fs::write(&prog, s.at("id").s()).unwrap();
            emit(&run_session(&s));
        }
    } else if a.iter().any(|x| x == "--race") {
        // every thread runs every session (or those meant for it), all starting together: the first use in the
        // process is a race
        let scripts: Arc<Vec<V>> = Arc::new(lines.iter().map(|l| json::parse(l)).collect());
        let bar = Barrier::new(threads);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (scripts, bar, order, emit) = (scripts.clone(), &bar, &order, &emit);
                crate::host::name(t).spawn_scoped(sc, move || {
                    bar.wait();
                    let logs: Vec<V> = order.iter().filter(|&&i| scripts[i].get("thread").map(|v| v.int() as usize == t).unwrap_or(true)).map(|&i| run_session(&scripts[i])).collect();
                    for mut v in logs { if let V::Obj(o) = &mut v { o.push(("thread".into(), V::Int(t as i64))) } emit(&v) }
                }).unwrap();
            }
        });
    } else {
        let next = AtomicUsize::new(0);
        let bar = Barrier::new(threads);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, bar, order, lines, emit) = (&next, &bar, &order, &lines, &emit);
                crate::host::name(t).spawn_scoped(sc, move || {
                    bar.wait();
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= order.len() { break }
                        emit(&run_session(&json::parse(&lines[order[k]])));
                    }
                }).unwrap();
            }
        });
    }
    let mut o = out.lock().unwrap();
    o.flush().unwrap();
    let _ = std::fs::remove_file(&prog);
}
