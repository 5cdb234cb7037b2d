//! Loading documents: each case is a set of files and a root text or file.
//!
//! Input, one JSON object per line: id, text (string or null), path (string or null), files (dir,
//! name, kind, text, target), dirs, ops.  Output, one JSON object per line: id and obs, a list of
//! observations (one per load that must behave the same way), and whatever the ops add.

use crate::enc;
use over::{obj::Obj, value::Value, OverError};
use serde_json::{json, Value as J};
use std::{
    fs,
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::Path,
    str::FromStr,
};

fn clear(dir: &Path) {
    for e in fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        let md = fs::symlink_metadata(&p).unwrap();
        if md.is_dir() {
            fs::remove_dir_all(&p).unwrap();
        } else {
            fs::remove_file(&p).unwrap();
        }
    }
}

pub fn comps(j: &J) -> Vec<String> {
    j.as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect()
}

// A name; U+F8FF stands for a byte that is not valid UTF-8.
fn os(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(name.replace('\u{f8ff}', "\u{1}").bytes().map(|b| if b == 1 { 0xff } else { b }).collect())
}

// Creates the case's files below root.
fn materialise(case: &J, root: &Path) {
    let empty = vec![];
    for d in case["dirs"].as_array().unwrap_or(&empty) {
        fs::create_dir_all(comps(d).iter().fold(root.to_path_buf(), |p, c| p.join(os(c)))).unwrap();
    }
    let files = case["files"].as_array().unwrap_or(&empty);
    let path_of = |f: &J| {
        comps(&f["dir"]).iter().fold(root.to_path_buf(), |p, c| p.join(os(c))).join(os(f["name"].as_str().unwrap()))
    };
    for f in files {
        let p = path_of(f);
        match f["kind"].as_str().unwrap() {
            "text" => fs::write(&p, f["text"].as_str().unwrap()).unwrap(),
            "binary" => fs::write(&p, b"a: \xff\xfe\n").unwrap(),
            "link" => {
                let t = path_of(&files[f["target"].as_u64().unwrap() as usize - 1]);
                std::os::unix::fs::symlink(t, &p).unwrap();
            }
            "dirlink" => {
                let t = comps(&f["to"]).iter().fold(root.to_path_buf(), |p, c| p.join(os(c)));
                std::os::unix::fs::symlink(t, &p).unwrap();
            }
            // No file at all: a link to nothing, to itself, or to a device.
            "none" => {
                let t = match f["how"].as_str().unwrap() {
                    "nothing" => root.join("there is nothing here"),
                    "itself" => p.clone(),
                    _ => "/dev/null".into(),
                };
                std::os::unix::fs::symlink(t, &p).unwrap();
            }
            k => panic!("file kind {}", k),
        }
    }
}

fn err_name(e: &OverError) -> &'static str {
    match e {
        OverError::ParseError(_) => "ParseError",
        OverError::IoError(_) => "IoError",
        _ => "OverError",
    }
}

type Loaded = Result<Result<Obj, OverError>, String>;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    })
}

fn load(case: &J, root: &Path) -> Loaded {
    match case["path"].as_str() {
        Some(p) => {
            let p = if case["abs"].as_bool() == Some(true) {
                root.join(p).to_str().unwrap().to_string()
            } else {
                p.to_string()
            };
            guard(|| Obj::from_file(&p))
        }
        None => {
            let text = case["text"].as_str().unwrap();
            guard(|| Obj::from_str(text))
        }
    }
}

pub fn observe(l: &Loaded, how: &str) -> J {
    match l {
        Err(m) => json!({"how": how, "o": "panic", "m": m}),
        Ok(Err(e)) => json!({"how": how, "o": "err", "e": err_name(e), "m": e.to_string()}),
        Ok(Ok(o)) => {
            let r = guard(|| {
                let w = enc::graph(o);
                if w.overflow {
                    return json!({"how": how, "o": "big"});
                }
                let id_ok = w.identity_ok && enc::identity_consistent(&enc::collect(o, 40));
                json!({"how": how, "o": "ok", "g": w.out, "r": w.refs, "idok": id_ok})
            });
            r.unwrap_or_else(|m| json!({"how": how, "o": "panic", "m": m}))
        }
    }
}

fn tree_or_null(o: &Loaded) -> J {
    match o {
        Ok(Ok(o)) => json!(enc::tree_obj(o)),
        _ => J::Null,
    }
}

fn has(case: &J, op: &str) -> bool {
    case["ops"].as_array().map_or(false, |a| a.iter().any(|o| o == op))
}

/// Loads, uses and drops in a thread with the default stack of threads; tells only how that ended.
fn alive(case: &J, root: &Path) -> J {
    let (c, root) = (case.clone(), root.to_path_buf());
    let light = has(case, "light");
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        guard(|| {
            let r = match c["path"].as_str() {
                Some(p) => Obj::from_file(root.join(p).to_str().unwrap()),
                None => Obj::from_str(c["text"].as_str().unwrap()),
            };
            match r {
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                    "err"
                }
                Ok(_) if light => "ok",
                Ok(o) => {
                    let s = o.write_to_string();
                    let d = format!("{}", o);
                    let _ = o == o.clone() && s == d;
                    let file = root.join("alive.out");
                    let _ = o.write_to_file(file.to_str().unwrap());
                    if let Ok(p) = Obj::from_str(&s) {
                        let _ = o == p;
                    }
                    let _ = o.iter().map(|p| p.0.len()).sum::<usize>();
                    drop(o);
                    "ok"
                }
            }
        })
    });
    match t.unwrap().join().unwrap() {
        Ok(o) => json!({"how": "load", "o": o, "e": "ParseError", "m": ""}),
        Err(m) => json!({"how": "load", "o": "panic", "m": m}),
    }
}

fn one(case: &J, root: &Path) -> J {
    let mut out = json!({"id": case["id"]});
    if has(case, "alive") {
        out["obs"] = json!([alive(case, root)]);
        return out;
    }
    let mut obs = vec![];
    let first = load(case, root);
    obs.push(observe(&first, "load"));

    if has(case, "again") {
        let second = load(case, root);
        obs.push(observe(&second, "again"));
        if let (Ok(Ok(a)), Ok(Ok(b))) = (&first, &second) {
            out["again_eq"] = json!(guard(|| a == b && b == a && a == a).unwrap_or(false));
        }
    }
    if let Ok(Ok(o)) = &first {
        if has(case, "eqm") {
            // Equality of the first fields with each other and with those of another load.
            let other = load(case, root);
            if let Ok(Ok(p)) = &other {
                let n = o.len().min(12);
                let m = guard(|| {
                    let mut m = vec![];
                    for i in 0..n {
                        for j in 0..n {
                            let (a, b, c) = (&o.pairs_ref()[i].1, &o.pairs_ref()[j].1, &p.pairs_ref()[j].1);
                            // Every way to compare has to agree.
                            let x = if (a == b) == (b == a) && (a != b) == !(a == b) { i64::from(a == b) } else { 9 };
                            let y = if (a == c) == (c == a) && (a != c) == !(a == c) { i64::from(a == c) } else { 9 };
                            m.push(x + 2 * y);
                        }
                    }
                    m
                });
                obs[0]["mn"] = json!(n);
                obs[0]["m"] = json!(m.unwrap_or_default());
            }
        }
        if has(case, "tree") {
            out["tree"] = json!(enc::tree_obj(o));
        }
        if has(case, "write") {
            let r = guard(|| {
                let s = o.write_to_string();
                let back = guard(|| Obj::from_str(&s));
                let target = root.join("out.over");
                let eq = |b: &Loaded| match b {
                    Ok(Ok(b)) => b == o && o == b,
                    _ => false,
                };
                // Existing files whose content must not survive: longer, as long, shorter, and nearly the same.
                let n = s.len();
                let olds = [
                    None,
                    Some("#".repeat(n)),
                    Some("#".repeat(n / 2)),
                    Some(String::new()),
                    Some(format!("{}zzz: 1\n", s)),
                    Some(format!("zzz: 1\n{}", s)),
                    Some(s.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect()),
                    Some(s.chars().take(s.chars().count() / 2).collect()),
                    Some(format!("{}\nzzz: [1 2]\nzzz: {{", "#".repeat(n + 64))),
                ];
                let mut wrote = Ok(());
                let mut fback: Loaded = Err(String::new());
                for (i, old) in olds.iter().enumerate() {
                    // Deep or long objects: the last of them only.
                    if n > 20000 && i + 1 < olds.len() {
                        continue;
                    }
                    let _ = fs::remove_file(&target);
                    if let Some(old) = old {
                        fs::write(&target, old).unwrap();
                    }
                    wrote = o.write_to_file(target.to_str().unwrap());
                    fback = guard(|| Obj::from_file(target.to_str().unwrap()));
                    if wrote.is_err() || !eq(&fback) {
                        break;
                    }
                }
                let _ = fs::remove_file(&target);
                json!({
                    "text": s, "wrote": wrote.is_ok(),
                    "want": json!(enc::tree_obj(o)),
                    "str": {"eq": eq(&back), "tree": tree_or_null(&back), "obs": observe(&back, "reload")},
                    "file": {"eq": eq(&fback), "tree": tree_or_null(&fback), "obs": observe(&fback, "reload-file")},
                })
            });
            out["write"] = r.unwrap_or_else(|m| json!({"panic": m}));
        }
        if has(case, "display") {
            let max = case["dmax"].as_u64().unwrap_or(30) as usize;
            let r = guard(|| {
                let mut vals: Vec<Value> = vec![];
                for v in enc::collect(o, max) {
                    match &v {
                        Value::Arr(a) => vals.extend(a.values_ref().iter().take(3).cloned()),
                        Value::Tup(t) => vals.extend(t.values_ref().iter().take(3).cloned()),
                        Value::Obj(o) => vals.extend(o.pairs_ref().iter().map(|p| p.1.clone())),
                        _ => {}
                    }
                    vals.push(v);
                }
                vals.truncate(max);
                let mut res = vec![];
                for v in vals {
                    // Display of the value and, for containers, of the container type itself.
                    let d = format!("{}", v);
                    let d2 = match &v {
                        Value::Arr(a) => format!("{}", a),
                        Value::Tup(t) => format!("{}", t),
                        Value::Obj(o) => format!("{}", o),
                        _ => d.clone(),
                    };
                    for (i, text) in [
                        format!("x: {}", d),
                        format!("x: [{}]\ny: 1", d),
                        format!("x: ({}\n{})", d2, d),
                        format!("q: 0 x: {{f: {}}}", d2),
                    ]
                    .iter()
                    .enumerate()
                    {
                        let back = guard(|| Obj::from_str(text));
                        let got = match &back {
                            Ok(Ok(b)) => {
                                let x = b.get("x").unwrap();
                                match i {
                                    0 => x == v && v == x,
                                    1 => x.get_arr().map_or(false, |a| a.len() == 1 && a.get(0).unwrap() == v),
                                    2 => x.get_tup().map_or(false, |a| {
                                        a.len() == 2 && a.get(0).unwrap() == v && a.get(1).unwrap() == v
                                    }),
                                    _ => x.get_obj().map_or(false, |o| o.len() == 1 && o.get("f") == Some(v.clone())),
                                }
                            }
                            _ => false,
                        };
                        res.push(json!({"text": text, "ctx": i, "want": enc::tree(&v), "eq": got,
                                        "tree": tree_or_null(&back), "obs": observe(&back, "display")}));
                    }
                }
                json!(res)
            });
            out["display"] = r.unwrap_or_else(|m| json!({"panic": m}));
        }
        if has(case, "use") {
            // Use the object in every way, then look at it again: nothing may have changed.
            let r = guard(|| {
                let vs = enc::collect(o, 40);
                let eq = vs.iter().all(|v| v == v);
                let texts: usize = vs.iter().map(|v| format!("{}", v).len()).sum();
                let c = o.clone();
                let pair = over::obj::Pair("u".into(), c.clone().into());
                let child = Obj::from_pairs(vec![pair], Some(c.clone())).unwrap();
                let t = over::tup::Tup::from_values(vec![child.into(), c.into()]);
                drop(t);
                drop(vs);
                let _ = o.write_to_string().len() + texts;
                eq
            });
            out["use_eq"] = json!(r.clone().unwrap_or(false));
            obs.push(match r {
                Ok(_) => observe(&first, "after use"),
                Err(m) => json!({"how": "use", "o": "panic", "m": m}),
            });
        }
    }
    // Dropping is part of the contract, too.
    if let Err(m) = guard(move || drop(first)) {
        obs.push(json!({"how": "drop", "o": "panic", "m": m}));
    }
    out["obs"] = json!(obs);
    out
}

pub fn cases(path: &str) -> impl Iterator<Item = J> {
    BufReader::new(fs::File::open(path).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
}

pub fn run(input: &str, output: &str, scratch: &str) {
    let root = fs::canonicalize(scratch).unwrap();
    std::env::set_current_dir(&root).unwrap();
    let mut out = fs::OpenOptions::new().append(true).create(true).open(output).unwrap();
    let mut dirty = true;
    for case in cases(input) {
        if dirty {
            clear(&root);
        }
        materialise(&case, &root);
        dirty = true;
        let r = one(&case, &root);
        writeln!(out, "{}", r).unwrap();
    }
    clear(&root);
}

/// Loads the cases (each in its own directory, absolute root path or string) from several threads
/// at once; every distinct observation of a case is recorded.
pub fn run_concurrent(input: &str, output: &str, scratch: &str) {
    let scratch = fs::canonicalize(scratch).unwrap();
    let cs: Vec<J> = cases(input).collect();
    let mut roots = vec![];
    for (i, c) in cs.iter().enumerate() {
        let root = scratch.join(format!("c{}", i));
        fs::create_dir_all(&root).unwrap();
        materialise(c, &root);
        roots.push(root);
    }
    let reps: usize = std::env::var("REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let cs = std::sync::Arc::new(cs);
    let roots = std::sync::Arc::new(roots);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(8));
    let handles: Vec<_> = (0..8)
        .map(|t| {
            let (cs, roots, barrier) = (cs.clone(), roots.clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    barrier.wait();
                    let mut seen: Vec<(usize, J)> = vec![];
                    let mut ids: Vec<usize> = vec![];
                    for r in 0..reps {
                        for k in 0..cs.len() {
                            // Half the threads walk the cases in the same order, the others are spread.
                            let i = if t % 2 == 0 { k } else { (k * 7 + t * 13 + r) % cs.len() };
                            let l = load(&cs[i], &roots[i]);
                            let o = observe(&l, "concurrent");
                            if let Ok(Ok(o)) = &l {
                                ids.extend(enc::collect(o, 20).iter().map(enc::id));
                            }
                            if !seen.iter().any(|(j, p)| *j == i && *p == o) {
                                seen.push((i, o));
                            }
                        }
                    }
                    (seen, ids)
                })
                .unwrap()
        })
        .collect();
    let mut per_case: Vec<Vec<J>> = vec![vec![]; cs.len()];
    let mut ids = vec![];
    for h in handles {
        let (seen, i) = h.join().unwrap();
        for (k, o) in seen {
            if !per_case[k].contains(&o) {
                per_case[k].push(o);
            }
        }
        ids.extend(i);
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    let mut out = fs::OpenOptions::new().append(true).create(true).open(output).unwrap();
    for (i, c) in cs.iter().enumerate() {
        writeln!(out, "{}", json!({"id": c["id"], "obs": per_case[i]})).unwrap();
    }
    // Sentinel instances (a token used as a value) are shared by all loads; the cases used here
    // have none.
    writeln!(out, "{}", json!({"id": 0, "instances": n, "distinct_ids": ids.len()})).unwrap();
    clear(&scratch);
}
