//! harness PROPERTY SEED SECONDS THREADS      search for a failing input
//! harness replay PROPERTY SCENARIO FILE      replay one (choices, whitespace separated)
//! The result is one line of JSON.
mod choices;
mod codec;
mod conn;
mod leak;
mod rpc_client;
mod rpc_server;
mod service;
mod setup;
mod wire;

use choices::{mix, Choices, Out};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: leak::Counting = leak::Counting;

type Run = fn(&mut Choices, &mut Out);

pub struct Scenario {
    pub name: &'static str,
    pub run: Run,
    pub props: &'static [&'static str],
    /// how many of this scenario's runs to do before the next scenario's turn
    pub weight: usize,
}

fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario { name: "conn", run: conn::small, props: &["C01", "C02", "C03", "C04", "C05", "C19"], weight: 200 },
        Scenario { name: "conn-big", run: conn::big, props: &["C01", "C02", "C03", "C04", "C05", "C19"], weight: 1 },
        Scenario { name: "prost", run: codec::prost, props: &["C06"], weight: 200 },
        Scenario { name: "prost-any", run: codec::prost_any, props: &["C06"], weight: 200 },
        Scenario { name: "messagepack", run: codec::messagepack, props: &["C07", "C19"], weight: 200 },
        Scenario { name: "messagepack-any", run: codec::messagepack_any, props: &["C07"], weight: 200 },
        Scenario { name: "messagepack-empty", run: codec::messagepack_empty, props: &["C07"], weight: 20 },
        Scenario { name: "client-gone", run: rpc_client::gone, props: &["C08", "C09", "C10", "C12"], weight: 20 },
        Scenario { name: "codes", run: codec::codes, props: &["C18"], weight: 1 },
        Scenario { name: "client", run: rpc_client::script, props: &["C08", "C09", "C10", "C11", "C12"], weight: 50 },
        Scenario { name: "client-race", run: rpc_client::race, props: &["C08", "C11", "C12"], weight: 5 },
        Scenario { name: "client-ending", run: rpc_client::ending, props: &["C11", "C12"], weight: 5 },
        Scenario { name: "server", run: rpc_server::script, props: &["C13", "C14", "C15", "C16"], weight: 20 },
        Scenario { name: "leak-client", run: leak::client, props: &["C20", "C10"], weight: 1 },
        Scenario { name: "leak-server", run: leak::server, props: &["C20"], weight: 1 },
        Scenario { name: "setup", run: setup::script, props: &["C17"], weight: 20 },
    ]
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn panicked() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

fn once(s: &Scenario, ch: &mut Choices, verbose: bool) -> Out {
    let mut out = Out { verbose, ..Default::default() };
    PANIC.with(|p| *p.borrow_mut() = None);
    tokio::mock::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(ch, &mut out)));
    let p = PANIC.with(|p| p.borrow_mut().take());
    if r.is_err() || p.is_some() {
        out.fail(s.props, format!("panic: {}", p.unwrap_or_default()));
    }
    out
}

fn fails(out: &Out, prop: &str) -> Option<String> {
    out.fails.iter().find(|(ps, _)| ps.contains(&prop)).map(|(_, m)| m.clone())
}

fn shrink(s: &Scenario, prop: &str, best: &Mutex<Vec<u32>>, until: Instant) {
    let mut log = best.lock().unwrap().clone();
    let try_ = |l: &Vec<u32>| -> Option<Vec<u32>> {
        let mut ch = Choices::replay(l.clone());
        let out = once(s, &mut ch, false);
        fails(&out, prop).map(|_| ch.log)
    };
    let mut step = log.len() / 2;
    while step > 0 && Instant::now() < until {
        let mut i = 0;
        while i < log.len() && Instant::now() < until {
            let mut l = log.clone();
            l.drain(i..(i + step).min(log.len()));
            match try_(&l) {
                Some(x) if x.len() < log.len() => {
                    log = x;
                    *best.lock().unwrap() = log.clone();
                }
                _ => i += step,
            }
        }
        step /= 2;
    }
    let mut i = 0;
    while i < log.len() && Instant::now() < until {
        for v in [0, log[i] / 2, log[i].saturating_sub(1)] {
            if v < log[i] {
                let mut l = log.clone();
                l[i] = v;
                if let Some(x) = try_(&l) {
                    if x.len() <= log.len() {
                        log = x;
                        *best.lock().unwrap() = log.clone();
                        break;
                    }
                }
            }
        }
        i += 1;
    }
}

/// run f on a thread of its own, and leave it there if it does not come back
fn within<T: Send + 'static>(t: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    let _ = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(t).ok()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(s: &Scenario, prop: &str, log: &[u32]) -> String {
    let out = once(s, &mut Choices::replay(log.to_vec()), true);
    let mut t = String::new();
    for l in out.trace.iter().take(400) {
        t.push_str(l);
        t.push('\n');
    }
    let m = fails(&out, prop).unwrap_or_else(|| "(not reproduced by the replay)".into());
    format!("scenario {}: {}\n{}", s.name, m, t)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.get_or_insert(m);
            }
        });
    }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let log: Vec<u32> = std::fs::read_to_string(&a[4]).expect("file").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let all = scenarios();
        let s = all.iter().find(|s| s.name == a[3]).expect("scenario");
        println!("{}", report(s, &a[2], &log));
        return;
    }
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let seed: u64 = a[2].parse().expect("seed");
    let secs: f64 = a[3].parse().expect("seconds");
    let threads: usize = a[4].parse().expect("threads");
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let stop = Arc::new(AtomicBool::new(false));
    let runs = Arc::new(AtomicU64::new(0));
    let shapes = Arc::new(Mutex::new(HashSet::<u64>::new()));
    let found: Arc<Mutex<Option<(usize, Vec<u32>, String)>>> = Arc::default();
    let current: Arc<Vec<Mutex<(Instant, String, u64)>>> =
        Arc::new((0..threads).map(|_| Mutex::new((Instant::now(), String::new(), 0))).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (stop, runs, shapes, found, current) = (stop.clone(), runs.clone(), shapes.clone(), found.clone(), current.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let all = scenarios();
            let mine: Vec<usize> = (0..all.len()).filter(|i| all[*i].props.contains(&prop)).collect();
            let mut i = 0u64;
            let mut local = HashSet::new();
            'o: loop {
                for k in &mine {
                    let s = &all[*k];
                    for _ in 0..s.weight {
                        if stop.load(Ordering::Relaxed) || Instant::now() >= end {
                            break 'o;
                        }
                        i += 1;
                        let sd = mix(seed ^ mix((t as u64) << 40 | i));
                        *current[t].lock().unwrap() = (Instant::now(), s.name.to_string(), sd);
                        let mut ch = Choices::random(sd);
                        let out = once(s, &mut ch, false);
                        runs.fetch_add(1, Ordering::Relaxed);
                        if local.len() < 200_000 {
                            local.insert(out.shape);
                        }
                        if let Some(m) = fails(&out, prop) {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((*k, ch.log, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                            break 'o;
                        }
                    }
                }
                if mine.is_empty() {
                    break;
                }
            }
            shapes.lock().unwrap().extend(local);
        }).expect("thread"));
    }
    // a run that never comes back
    let mut stuck = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) || found.lock().unwrap().is_some() {
            break;
        }
        for c in current.iter() {
            let c = c.lock().unwrap();
            if c.0.elapsed() > Duration::from_secs(30) && !hs.iter().all(|h| h.is_finished()) && Instant::now() > end {
                stuck = Some((c.1.clone(), c.2));
            }
        }
        if stuck.is_some() {
            break;
        }
    }
    let n = runs.load(Ordering::Relaxed);
    if let Some((name, sd)) = stuck {
        println!("{{\"evaluations\":{n},\"distinct\":0,\"status\":\"stuck\",\"violation\":{},\"scenario\":{},\"choices\":\"\"}}",
            js(&format!("scenario {name} with seed {sd} does not return: the code under test loops or deadlocks")), js(&name));
        std::process::exit(0);
    }
    let d = shapes.lock().unwrap().len();
    let f = found.lock().unwrap().take();
    match f {
        Some((k, log, m)) => {
            let all = scenarios();
            let m2 = m.clone();
            let best = Arc::new(Mutex::new(log.clone()));
            let b2 = best.clone();
            within(Duration::from_secs(12), move || shrink(&scenarios()[k], prop, &b2, Instant::now() + Duration::from_secs(8)));
            let mut log2 = best.lock().unwrap().clone();
            let l2 = log2.clone();
            let text = match within(Duration::from_secs(15), move || report(&scenarios()[k], prop, &l2)) {
                Some(t) if !t.contains("(not reproduced by the replay)") => t,
                _ => {
                    log2 = log.clone();
                    within(Duration::from_secs(15), move || report(&scenarios()[k], prop, &log)).unwrap_or_else(|| format!("scenario {}: {m2}", scenarios()[k].name))
                }
            };
            let log = log2;
            let c: Vec<String> = log.iter().map(|x| x.to_string()).collect();
            println!("{{\"evaluations\":{n},\"distinct\":{d},\"status\":\"failed\",\"message\":{},\"violation\":{},\"scenario\":{},\"choices\":{}}}",
                js(&m), js(&text), js(all[k].name), js(&c.join(" ")));
            std::process::exit(0);
        }
        None => println!("{{\"evaluations\":{n},\"distinct\":{d},\"status\":\"passed\"}}"),
    }
}
