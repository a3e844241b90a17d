mod chaos;
mod net;
mod threads;
mod wire;
mod world;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: chaos::Alloc = chaos::Alloc;

fn run_one(sc: &Value, log: Arc<Mutex<Vec<Value>>>) {
    let seed = sc["seed"].as_u64().unwrap_or(1);
    world::PANICS.with(|p| p.borrow_mut().clear());
    net::start(world::T0, seed);
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.enable_all();
    b.event_interval(sc["cfg"]["ei"].as_u64().unwrap_or(61) as u32);
    let rt = b.build().unwrap();
    let ops = sc["ops"].as_array().cloned().unwrap_or_default();
    let mut w = world::World::new(seed, &sc["cfg"], log);
    rt.block_on(async {
        tokio::time::pause();
        w.run(&ops).await;
    });
    {
        let _g = rt.enter();
        drop(w);
    }
    drop(rt);
    net::stop();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("scenario file"));
    let scs: Vec<Value> = inp
        .lines()
        .map_while(Result::ok)
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("scenario json"))
        .collect();
    let threads: usize = std::env::var("RKV_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg.starts_with("harness:") {
            eprintln!("{msg} at {loc}");
            std::process::exit(2);
        }
        if std::env::var("RKV_DEBUG").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        if loc.starts_with("src/") && threads::here() {
            eprintln!("harness: panic {msg} at {loc}");
            std::process::exit(2);
        }
        if threads::panicked(&format!("{loc} {msg}")) {
            return;
        }
        world::PANICS.with(|p| p.borrow_mut().push(format!("{loc} {msg}")));
    }));
    let limit: u64 = std::env::var("RKV_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    let next = Arc::new(AtomicUsize::new(0));
    let n = scs.len();
    let scs = Arc::new(scs);
    type Slot = (Arc<Mutex<Vec<Value>>>, Option<Instant>, bool);
    let slots: Arc<Mutex<Vec<Slot>>> =
        Arc::new(Mutex::new((0..n).map(|_| (Arc::new(Mutex::new(vec![])), None, false)).collect()));
    for k in 0..threads.min(n.max(1)).min(8) {
        let (next, scs, slots) = (next.clone(), scs.clone(), slots.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || loop {
                net::claim_ports(k);
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= scs.len() {
                    break;
                }
                let log = {
                    let mut s = slots.lock().unwrap();
                    s[i].1 = Some(Instant::now());
                    s[i].0.clone()
                };
                let l2 = log.clone();
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if scs[i]["threads"].is_object() { threads::run_one(&scs[i]["threads"], l2) } else { run_one(&scs[i], l2) })).is_err() {
                    let at = world::PANICS.with(|p| p.borrow().last().cloned()).unwrap_or_default();
                    if at.starts_with("src/") {
                        eprintln!("harness: panic {at} in {}", scs[i]["name"]);
                        std::process::exit(2);
                    }
                    log.lock().unwrap().push(json!({"e":"panic","t":0,"at":at}));
                    net::stop();
                }
                slots.lock().unwrap()[i].2 = true;
            })
            .unwrap();
    }
    // a scenario that does not end in `limit` seconds of real time is cut off: the code under test spins
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let s = slots.lock().unwrap();
        let hung = s.iter().filter(|x| !x.2 && x.1.map(|t| t.elapsed().as_secs() >= limit).unwrap_or(false)).count();
        let open = s.iter().filter(|x| !x.2).count();
        if open == 0 || (hung > 0 && (hung == open || hung >= threads)) {
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    let s = slots.lock().unwrap();
    for (i, x) in s.iter().enumerate() {
        writeln!(f, "{}", json!({"e":"reset","t":0,"sc":scs[i]["name"],"n":i})).unwrap();
        for v in x.0.lock().unwrap().iter() {
            writeln!(f, "{v}").unwrap();
        }
        if !x.2 && x.1.is_some() {
            writeln!(f, "{}", json!({"e":"hang","t":0})).unwrap();
        }
    }
    f.flush().unwrap();
    drop(f);
    std::process::exit(0);
}
