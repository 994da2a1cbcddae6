//! Native search for violating inputs: runs the real crate against independent
//! reference models.  It decides nothing when the proofs go through; it
//! replays and finds concrete inputs when an obligation fails, and stands in
//! (bounded, never counted as proved) for functions outside the verifier.
mod codec;
mod der;
mod pair;
mod req;
mod rng;
mod rsp;
mod wire;

use rng::Rng;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub viol: Option<String>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub trace: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 600 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

impl Ctx {
    fn new(prop: &str) -> Ctx {
        Ctx { prop: prop.to_string(), viol: None, evals: 0, distinct: HashSet::new(), samples: vec![], trace: vec![] }
    }
    pub fn is(&self, props: &[&str]) -> bool {
        props.contains(&self.prop.as_str())
    }
    /// Record a violation if `cond` is false and the property searched is one of `props`.
    pub fn check(&mut self, props: &[&str], cond: bool, what: impl FnOnce() -> String) -> bool {
        if !cond && self.viol.is_none() && self.is(props) {
            let mut w = what();
            w.truncate(6000);
            self.viol = Some(w);
        }
        cond
    }
    /// Run code of the crate; a panic violates `props`.
    pub fn guard<T>(&mut self, props: &[&str], what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let p = LAST_PANIC.with(|l| l.borrow().clone());
                self.check(props, false, || format!("panic: {}; {}", p, what()));
                None
            }
        }
    }
    /// Count one evaluation; `key` identifies the case, `nontrivial` says whether it counts.
    pub fn count(&mut self, nontrivial: bool, key: impl Hash, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 400_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 6 {
                let mut s = sample();
                s.truncate(700);
                self.samples.push(s);
            }
        }
    }
}

type Case = fn(&mut Rng, &mut Ctx);

/// The case generators that can tell something about a property, with weights.
fn cases(prop: &str) -> (Vec<(u32, Case)>, &'static str) {
    let rsp = "random walks of the real responder against a reference model of the protocol: random slots, chains and signers, valid and mutated requests of every kind, buffer sizes around the exact ones; non-trivial: at least one request was answered";
    let req = "walks of the real requester driven by honest, altered and hostile responses against a reference model with an independent webpki/ring oracle; non-trivial: at least one response was accepted";
    let cod = "messages built from random fields and message bodies generated valid, mutated, truncated and random, compared with independent reference codecs; non-trivial: the body is accepted by the reference";
    match prop {
        "C01" => (vec![(3, rsp::walk as Case), (1, codec::messages)], rsp),
        "C02" => (vec![(3, req::walk as Case), (1, codec::messages), (1, codec::chains)], req),
        "C08" | "C12" | "C15" | "C16" | "C20" => (vec![(1, rsp::walk as Case)], rsp),
        "C13" | "C07" | "C09" | "C14" => (vec![(1, req::walk as Case)], req),
        "C11" => (vec![(2, rsp::walk as Case), (2, req::walk), (1, pair::talk)], rsp),
        "C21" => (vec![(4, rsp::walk as Case), (4, req::walk), (2, codec::names), (1, pair::talk)], rsp),
        "C17" => (vec![(2, rsp::walk as Case), (1, req::walk), (1, codec::messages)], rsp),
        "C18" => (vec![(2, rsp::walk as Case), (1, req::walk), (2, codec::chains), (1, codec::messages)], rsp),
        "C03" | "C05" => (vec![(16, codec::messages as Case), (2, codec::chains), (1, codec::flags)], cod),
        "C04" => (vec![(6, codec::messages as Case), (1, codec::writer), (1, codec::chains)], cod),
        "C06" => (vec![(1, codec::reader as Case)], "random operation sequences on the message reader against a bit-exact model; non-trivial: at least one read succeeded"),
        "C10" => (vec![(1, codec::transcript as Case)], "random append/clear sequences on the transcript against a byte-vector model, sizes around the capacity; non-trivial: at least one append"),
        "C19" => (vec![(1, der::der as Case)], "fixed-width signatures of even length 2..=64 (random, leading zeros, high bits, all zero) against an independent DER encoder and decoder; non-trivial: all"),
        "C22" => (vec![(3, codec::equality as Case), (1, codec::transcript)], "pairs of equal and unequal contents with different unused storage; non-trivial: all"),
        "C23" => (vec![(1, codec::nonces as Case), (1, rsp::nonces), (1, req::nonces)], "64 nonces per message kind: no byte position constant, no two positions or nonces equal; non-trivial: all"),
        "C24" => (vec![(1, pair::talk as Case)], "conversations of the real requester with the real responder: honest provisioning with chains of varied depth and up to the largest size, all slot populations, exact and larger buffers, responders with a past, signatures of unusual shape; non-trivial: all six exchanges succeeded"),
        _ => (vec![], ""),
    }
}

fn run_case(prop: &str, seed: u64, ctx: &mut Ctx) {
    let (cs, _) = cases(prop);
    let mut r = Rng::new(seed);
    let total: u32 = cs.iter().map(|c| c.0).sum();
    let mut k = r.below(total as u64) as u32;
    for (w, c) in cs {
        if k < w {
            ctx.trace.clear();
            if catch_unwind(AssertUnwindSafe(|| c(&mut r, ctx))).is_err() {
                // an error of the engine itself, not of the crate
                let p = LAST_PANIC.with(|l| l.borrow().clone());
                eprintln!("engine case failed: seed {} {}", seed, p);
                std::process::exit(2);
            }
            return;
        }
        k -= w;
    }
}

fn search(prop: &str, seed: u64, secs: u64, out: &str) -> i32 {
    let (cs, rule) = cases(prop);
    if cs.is_empty() {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let end = Instant::now() + Duration::from_secs(secs);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) as u64;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (prop, stop) = (prop.to_string(), stop.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new(&prop);
                    let mut i = 0u64;
                    let mut found = None;
                    while Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        for _ in 0..8 {
                            let s = rng::mix(seed.wrapping_mul(0x9e37_79b9).wrapping_add(t << 48).wrapping_add(i));
                            i += 1;
                            run_case(&prop, s, &mut ctx);
                            if ctx.viol.is_some() {
                                found = Some(s);
                                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                                break;
                            }
                        }
                        if found.is_some() {
                            break;
                        }
                    }
                    (ctx, found)
                })
                .unwrap()
        })
        .collect();
    let (mut evals, mut distinct, mut samples, mut found) = (0, HashSet::new(), vec![], None);
    for h in hs {
        let (c, f) = h.join().unwrap();
        evals += c.evals;
        distinct.extend(c.distinct);
        for s in c.samples {
            if samples.len() < 6 {
                samples.push(s);
            }
        }
        if let (Some(s), None) = (f, &found) {
            found = Some((s, c.viol.unwrap(), c.trace));
        }
    }
    println!("STATS {}", json!({"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": rule, "samples": samples, "seconds": secs}));
    if let Some((s, w, trace)) = found {
        println!("FOUND {}", w);
        let doc = json!({"kind": "native", "property": prop, "case_seed": s.to_string(), "what": w, "steps": trace});
        std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        return 10;
    }
    0
}

fn replay(path: &str) -> i32 {
    let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let prop = d["property"].as_str().unwrap();
    let seed: u64 = d["case_seed"].as_str().unwrap_or("0").parse().unwrap();
    // nonces and signatures are drawn from the system: repeat
    let end = Instant::now() + Duration::from_secs(20);
    let mut ctx = Ctx::new(prop);
    for _ in 0..2000 {
        run_case(prop, seed, &mut ctx);
        if let Some(w) = &ctx.viol {
            println!("reproduced: {}", w);
            return 10;
        }
        if Instant::now() > end {
            break;
        }
    }
    println!("not reproduced");
    0
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let t = std::thread::Builder::new().stack_size(64 << 20);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2], opt("--seed", "1").parse().unwrap(), opt("--seconds", "10").parse().unwrap(), &opt("--out", "/dev/null")),
        Some("replay") => {
            let p = a[2].clone();
            t.spawn(move || replay(&p)).unwrap().join().unwrap_or(2)
        }
        _ => 2,
    };
    std::process::exit(code);
}
