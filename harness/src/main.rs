//! recorder record <property> <seed> <quick|thorough> <out> [shard]
//! recorder replay <in> <out>
mod exec;
mod gen;
mod plan;
mod plan_int;
mod plan_long;
mod plan_fp;
mod plan_more;
mod plan_ratio;
mod sess;
mod val;

use sess::{Ctx, Slot};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;

fn env(name: &str, default: u64) -> u64 { std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let limit = env("OP_LIMIT_MS", 120_000);
    let deadline = env("RECORD_LIMIT_MS", 240_000);
    match args[1].as_str() {
        "record" => {
            let (prop, seed, tier, out) = (args[2].clone(), args[3].parse::<u64>().unwrap(), args[4].clone(), args[5].clone());
            let only: Option<u64> = args.get(6).map(|s| s.parse().unwrap());
            let thorough = tier == "thorough";
            let scale = env("SCALE", if thorough { 8 } else { 1 });
            let slots: Vec<Arc<Slot>> = (0..SHARDS).map(|_| Arc::new(Slot { buf: Mutex::new(String::new()), since: AtomicU64::new(0) })).collect();
            watchdog(slots.clone(), t0, limit, format!("{out}.hang"));
            let mut hs = vec![];
            for k in 0..SHARDS {
                if only.map_or(false, |o| o != k) { continue; }
                let (prop, out, slot) = (prop.clone(), out.clone(), slots[k as usize].clone());
                let journal = only.map(|_| format!("{out}.pending"));
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let mut c = Ctx::new(&format!("{out}.{k}"), seed, k, SHARDS, scale, thorough, slot, t0, deadline, journal);
                    plan::run(&prop, &mut c);
                    c.close();
                    c
                }).unwrap());
            }
            let cs: Vec<Ctx> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| { eprintln!("recorder: a worker failed"); std::process::exit(4) })).collect();
            let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
            let (mut ops, mut distinct) = (BTreeMap::<String, u64>::new(), HashSet::<u64>::new());
            let (mut s, mut e, mut p, mut r) = (0, 0, 0, 0);
            for c in &cs {
                let path = format!("{out}.{}", c.shard);
                std::io::copy(&mut std::fs::File::open(&path).unwrap(), &mut f).unwrap();
                let _ = std::fs::remove_file(&path);
                for (k, v) in &c.ops { *ops.entry(k.clone()).or_insert(0) += v; }
                distinct.extend(&c.distinct);
                s += c.sessions; e += c.events; p += c.panics; r += c.errs;
            }
            f.flush().unwrap();
            let calls: u64 = ops.values().sum();
            let hist: Vec<String> = ops.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            println!("{{\"sessions\":{s},\"events\":{e},\"calls\":{calls},\"distinct_calls\":{},\"panics\":{p},\"errors\":{r},\"record_s\":{:.1},\"ops\":{{{}}}}}",
                distinct.len(), t0.elapsed().as_secs_f64(), hist.join(","));
        }
        "replay" => {
            let slot = Arc::new(Slot { buf: Mutex::new(String::new()), since: AtomicU64::new(0) });
            watchdog(vec![slot.clone()], t0, limit, format!("{}.hang", args[3]));
            let (inp, out) = (args[2].clone(), args[3].clone());
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut c = Ctx::new(&out, 0, 0, 1, 1, false, slot, t0, u64::MAX, std::env::var("JOURNAL").ok());
                for line in std::fs::read_to_string(&inp).unwrap().lines() {
                    if line.trim().is_empty() { continue; }
                    let j = val::Parser::parse(line);
                    let mut map: BTreeMap<i64, usize> = BTreeMap::new();
                    for ev in j.arr() {
                        let e = ev.arr();
                        let (fam, name, inplace, d) = (e[0].str(), e[1].str(), e[2].num() == 1, e[5].num());
                        let cs: Vec<val::Val> = e[4].arr().iter().map(|x| x.val()).collect();
                        match (fam, name) {
                            ("", "ld") => { let r = c.ld(cs[0].clone()); map.insert(d, r); }
                            ("", "obs") => {}
                            ("", "cp") => if let Some(k) = map.get(&e[3].arr()[0].num()).copied() { let r = c.cp(k); map.insert(d, r); },
                            _ => {
                                let a: Vec<usize> = e[3].arr().iter().filter_map(|x| map.get(&x.num()).copied()).collect();
                                if a.len() != e[3].arr().len() { continue; }
                                let r = c.op(&format!("{fam}.{name}{}", if inplace { "_mut" } else { "" }), &a, &cs);
                                map.insert(d, r);
                            }
                        }
                    }
                    c.end();
                }
                c.close();
                (c.sessions, c.events, c.ops.values().sum::<u64>(), c.distinct.len())
            }).unwrap();
            let (s, e, n, d) = h.join().unwrap_or_else(|_| { eprintln!("recorder: replay failed"); std::process::exit(4) });
            println!("{{\"sessions\":{s},\"events\":{e},\"calls\":{n},\"distinct_calls\":{d}}}");
        }
        x => panic!("unknown command {x}"),
    }
}

/// Ends the process when one call runs longer than the limit, leaving the session
/// that contains it, with the outcome "hang", in the given file.
fn watchdog(slots: Vec<Arc<Slot>>, t0: Instant, limit: u64, path: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = t0.elapsed().as_millis() as u64;
        for s in &slots {
            let since = s.since.load(Ordering::SeqCst);
            if since != 0 && now > since + limit {
                let b = s.buf.lock().unwrap();
                let _ = std::fs::write(&path, format!("{b}[\"hang\"]]]\n"));
                eprintln!("recorder: a call did not return within {limit} ms");
                std::process::exit(3);
            }
        }
    });
}
