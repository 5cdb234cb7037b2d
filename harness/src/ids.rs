//! Creating instances, from one and from many threads, and recording their IDs.
//!
//!   order START N          the IDs of the first N instances of this process
//!   conc THREADS PHASES N  per phase and thread, the IDs of N instances (a barrier between phases)
//!   mixed THREADS N        like conc with one phase, every fourth step loads a document
//!   big THREADS TOTAL      TOTAL instances; what set their IDs form
//!   far N SECS             N instances in one thread, then some of every kind
use crate::enc;
use over::{arr::Arr, obj::Obj, obj::Pair, tup::Tup, types::Type, value::Value, ReferenceType};
use serde_json::json;
use std::{
    hint::black_box,
    str::FromStr,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Barrier,
    },
};

pub const KINDS: usize = 10;

/// Makes one instance and returns a value holding it.
fn make(kind: usize) -> (usize, Value) {
    macro_rules! v {
        ($e:expr) => {{
            let x = $e;
            (x.id(), x.into())
        }};
    }
    match kind % KINDS {
        0 => v!(Arr::empty()),
        1 => v!(Arr::from_values(vec![1.into(), 2.into()]).unwrap()),
        2 => v!(Arr::from_values_unchecked(vec![], Type::Any)),
        3 => v!(Tup::empty()),
        4 => v!(Tup::from_values(vec![Value::Null])),
        5 => v!(Obj::empty()),
        6 => v!(Obj::from_pairs(vec![Pair("a".into(), Value::Null)], None).unwrap()),
        7 => v!(Obj::from_pairs_unchecked(vec![], None)),
        8 => v!(Arr::from_values(vec![]).unwrap()),
        _ => v!(Tup::from_values(vec![])),
    }
}

fn num(s: &str) -> usize {
    s.parse().unwrap()
}

pub fn run(a: &[String]) {
    let out = match a[0].as_str() {
        "order" => {
            let v: Vec<_> = (0..num(&a[2])).map(|i| make(num(&a[1]) + i).0).collect();
            json!({ "ids": v })
        }
        "conc" => conc(num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]), a[5] == "1"),
        "mixed" => mixed(num(&a[1]), num(&a[2])),
        "big" => big(num(&a[1]), num(&a[2])),
        "far" => far(num(&a[1]), num(&a[2]) as u64),
        m => panic!("{}", m),
    };
    println!("{}", out);
}

// How many instances thread t makes in phase p: uneven counts, now and then of one thread only.
fn share(t: usize, p: usize, threads: usize, n: usize, seed: usize) -> usize {
    let dice = |a: usize, b: usize| {
        let mut x = (seed as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ ((p as u64) << 32) ^ ((a as u64) << 48);
        for _ in 0..3 {
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(a as u64);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        }
        ((x >> 20) % b as u64) as usize
    };
    if dice(1000, 3) == 0 {
        return if t == dice(1001, threads) { 1 + dice(1002, 7) } else { 0 };
    }
    dice(t, n + 1)
}

fn phase(t: usize, p: usize, n: usize, keep: &mut Vec<Value>) -> Vec<usize> {
    let mut ids = Vec::with_capacity(n);
    for i in 0..n {
        let (id, v) = make(t + i + p);
        ids.push(id);
        if i % 3 == 0 {
            keep.push(v);
        }
    }
    ids
}

// Thread 0 is the main thread.  With `fresh`, every phase has threads of its own, some of them named.
fn conc(threads: usize, phases: usize, n: usize, seed: usize, fresh: bool) -> serde_json::Value {
    if fresh {
        let mut log: Vec<Vec<Vec<usize>>> = vec![vec![]; threads];
        for p in 0..phases {
            let hs: Vec<_> = (1..threads)
                .map(|t| {
                    let b = std::thread::Builder::new();
                    let b = if t % 2 == 0 { b.name(format!("t{}", t)) } else { b };
                    b.spawn(move || phase(t, p, share(t, p, threads, n, seed), &mut vec![])).unwrap()
                })
                .collect();
            log[0].push(phase(0, p, share(0, p, threads, n, seed), &mut vec![]));
            for (t, h) in hs.into_iter().enumerate() {
                log[t + 1].push(h.join().unwrap());
            }
        }
        return json!(log);
    }
    let barrier = Arc::new(Barrier::new(threads));
    let body = move |t: usize, barrier: Arc<Barrier>| {
        let mut log: Vec<Vec<usize>> = vec![];
        let mut keep = vec![];
        for p in 0..phases {
            barrier.wait();
            log.push(phase(t, p, share(t, p, threads, n, seed), &mut keep));
            barrier.wait();
        }
        log
    };
    let hs: Vec<_> = (1..threads)
        .map(|t| {
            let barrier = barrier.clone();
            std::thread::spawn(move || body(t, barrier))
        })
        .collect();
    let mut logs = vec![body(0, barrier)];
    logs.extend(hs.into_iter().map(|h| h.join().unwrap()));
    json!(logs)
}

// Steps: [0, id] a constructor call; [1, ids...] the instances of a loaded document.
fn mixed(threads: usize, n: usize) -> serde_json::Value {
    let barrier = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                let mut log: Vec<Vec<usize>> = vec![];
                let mut keep: Vec<Value> = vec![];
                barrier.wait();
                for i in 0..n {
                    if (i + t) % 4 == 0 {
                        let o = Obj::from_str("a: [[] [1]] b: {c: [1]} d: a+[[]] e: ({} []) @g: [2] f: @g").unwrap();
                        let mut ids: Vec<usize> = enc::collect(&o, 100).iter().map(enc::id).collect();
                        ids.sort();
                        ids.dedup();
                        ids.insert(0, 1);
                        log.push(ids);
                        keep.push(o.into());
                    } else {
                        let (id, v) = make(t + i);
                        log.push(vec![0, id]);
                        keep.push(v);
                    }
                }
                (log, keep)
            })
        })
        .collect();
    let logs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let (logs, _keep): (Vec<_>, Vec<_>) = logs.into_iter().unzip();
    json!(logs)
}

fn big(threads: usize, total: usize) -> serde_json::Value {
    let words = total / 64 + 64;
    let bits: Arc<Vec<AtomicU64>> = Arc::new((0..words).map(|_| AtomicU64::new(0)).collect());
    let per = total / threads;
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let bits = bits.clone();
            std::thread::spawn(move || {
                let (mut twice, mut out, mut back, mut distinct, mut max) = (0usize, 0usize, 0usize, 0usize, 0usize);
                let mut last: Option<usize> = None;
                for i in 0..per {
                    let (id, v) = if i % 16 == 0 { make(t + i / 16) } else { one() };
                    black_box(&v);
                    if last.map_or(false, |l| id <= l) {
                        back += 1;
                    }
                    last = Some(id);
                    max = max.max(id);
                    if id / 64 >= bits.len() {
                        out += 1;
                    } else if bits[id / 64].fetch_or(1 << (id % 64), Ordering::Relaxed) >> (id % 64) & 1 == 1 {
                        twice += 1;
                    } else {
                        distinct += 1;
                    }
                }
                (twice, out, back, distinct, max)
            })
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    json!({
        "made": per * threads,
        "twice": rs.iter().map(|r| r.0).sum::<usize>(), "outside": rs.iter().map(|r| r.1).sum::<usize>(),
        "back": rs.iter().map(|r| r.2).sum::<usize>(), "distinct": rs.iter().map(|r| r.3).sum::<usize>(),
        "max": rs.iter().map(|r| r.4).max().unwrap(),
    })
}

fn one() -> (usize, Value) {
    let o = Obj::from_pairs_unchecked(vec![], None);
    (o.id(), o.into())
}

fn far(n: usize, limit: u64) -> serde_json::Value {
    let mut next = 0usize;
    let start = std::time::Instant::now();
    while next < n {
        if next % (1 << 20) == 0 && start.elapsed().as_secs() > limit {
            break;
        }
        let o = Obj::from_pairs_unchecked(vec![], None);
        if black_box(&o).id() != next {
            return json!({"at": next, "got": o.id(), "tail": []});
        }
        next += 1;
    }
    // Relative to the number of instances made before.
    let tail: Vec<i64> = (0..64).map(|i| (make(i).0 as i128 - next as i128).max(-1000).min(1000) as i64).collect();
    json!({"at": next, "got": next, "tail": tail})
}
