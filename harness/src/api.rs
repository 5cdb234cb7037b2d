//! Histories of calls of the programming interface (see spec/OverApi.tla).
//!
//! Input, one JSON object per line: id, n (number of slots), ops.  Output: id and obs, one
//! observation per call: res (the result) and g, refs, ids, same (everything held afterwards).

use crate::{docs::{cases, guard}, enc};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use over::{
    arr::Arr,
    obj::{Obj, Pair},
    tup::Tup,
    types::Type,
    value::Value,
    OverError, ReferenceType,
};
use serde_json::{json, Value as J};
use std::{convert::TryFrom, io::Write};
use over::{arr, obj, try_arr, try_obj, tup};

fn big(neg: &J, m: &J) -> BigInt {
    let mut n = BigInt::from(0);
    for l in m.as_array().unwrap().iter().rev() {
        n = n * 10000 + l.as_i64().unwrap();
    }
    if neg.as_bool().unwrap() { -n } else { n }
}
fn string(j: &J) -> String {
    j.as_array().unwrap().iter().map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn scalar(v: &J) -> Value {
    match v["t"].as_str().unwrap() {
        "null" => Value::Null,
        "bool" => Value::Bool(v["b"].as_bool().unwrap()),
        "int" => Value::Int(big(&v["i"]["neg"], &v["i"]["m"])),
        "frac" => Value::Frac(ratio(v)),
        "str" => Value::Str(string(&v["s"])),
        k => panic!("scalar {}", k),
    }
}
fn ratio(v: &J) -> BigRational {
    BigRational::new(big(&v["f"]["neg"], &v["f"]["n"]), big(&json!(false), &v["f"]["d"]))
}

// Conversion from a native type.
fn native(ty: &str, v: &J) -> Value {
    let i = || big(&v["i"]["neg"], &v["i"]["m"]);
    match ty {
        "usize" => i().to_usize().unwrap().into(),
        "u8" => i().to_u8().unwrap().into(),
        "u16" => i().to_u16().unwrap().into(),
        "u32" => i().to_u32().unwrap().into(),
        "u64" => i().to_u64().unwrap().into(),
        "i8" => i().to_i8().unwrap().into(),
        "i16" => i().to_i16().unwrap().into(),
        "i32" => i().to_i32().unwrap().into(),
        "i64" => i().to_i64().unwrap().into(),
        "big" => i().into(),
        "bool" => v["b"].as_bool().unwrap().into(),
        "frac" => ratio(v).into(),
        "str" => string(&v["s"]).as_str().into(),
        "string" => string(&v["s"]).into(),
        t => panic!("native {}", t),
    }
}
// Both directions of the comparison with a native value.
// A fraction may be given with numerator and denominator multiplied by `raw`.
fn native_eq(x: &Value, ty: &str, v: &J, raw: &J) -> (bool, bool) {
    let i = || big(&v["i"]["neg"], &v["i"]["m"]);
    macro_rules! both {
        ($n:expr) => {{
            let n = $n;
            (*x == n, n == *x)
        }};
    }
    match ty {
        "usize" => both!(i().to_usize().unwrap()),
        "u8" => both!(i().to_u8().unwrap()),
        "u16" => both!(i().to_u16().unwrap()),
        "u32" => both!(i().to_u32().unwrap()),
        "u64" => both!(i().to_u64().unwrap()),
        "i8" => both!(i().to_i8().unwrap()),
        "i16" => both!(i().to_i16().unwrap()),
        "i32" => both!(i().to_i32().unwrap()),
        "i64" => both!(i().to_i64().unwrap()),
        "big" => both!(i()),
        "bool" => both!(v["b"].as_bool().unwrap()),
        "frac" => {
            let (f, k) = (ratio(v), BigInt::from(raw.as_i64().unwrap_or(1)));
            both!(BigRational::new_raw(f.numer() * &k, f.denom() * &k))
        }
        "str" => {
            let s = string(&v["s"]);
            both!(s.as_str())
        }
        "string" => both!(string(&v["s"])),
        t => panic!("native {}", t),
    }
}

fn tflat(t: &Type) -> J {
    let mut o = vec![];
    enc::push_type(&mut o, t);
    json!(o)
}
fn cps(s: &str) -> J {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn error(e: &OverError) -> J {
    use over::OverError::*;
    let text = e.to_string();
    // The message has to name what the error is about.
    let (name, args, named): (&str, Vec<J>, Vec<String>) = match e {
        ArrOutOfBounds(i) => ("ArrOutOfBounds", vec![json!(enc::limbs(&BigInt::from(*i)))], vec![i.to_string()]),
        TupOutOfBounds(i) => ("TupOutOfBounds", vec![json!(enc::limbs(&BigInt::from(*i)))], vec![i.to_string()]),
        ArrTypeMismatch(a, b) => ("ArrTypeMismatch", vec![tflat(a), tflat(b)], vec![a.to_string(), b.to_string()]),
        TypeMismatch(a, b) => ("TypeMismatch", vec![tflat(a), tflat(b)], vec![a.to_string(), b.to_string()]),
        FieldNotFound(f) => ("FieldNotFound", vec![cps(f)], vec![f.clone()]),
        InvalidFieldName(f) => ("InvalidFieldName", vec![cps(f)], vec![f.clone()]),
        _ => ("?", vec![], vec![]),
    };
    let ok = named.iter().all(|n| text.contains(n.as_str()));
    json!({"r": "err", "e": if ok { name } else { "unnamed" }, "a": args, "d": []})
}
fn ok(d: Vec<i64>) -> J {
    json!({"r": "ok", "e": "", "a": [], "d": d})
}
fn none() -> J {
    json!({"r": "none", "e": "", "a": [], "d": []})
}

struct Run {
    slots: Vec<Option<Value>>,
    base: usize,
    // IDs used up by the harness itself: (first ID after them, how many).
    skips: Vec<(usize, usize)>,
}

impl Run {
    fn v(&self, j: &J) -> Option<&Value> {
        self.slots[j.as_u64().unwrap() as usize - 1].as_ref()
    }
    // Arguments: those of the slots that hold something.
    fn args(&self, op: &J) -> Vec<Value> {
        op["args"].as_array().unwrap().iter().filter_map(|j| self.v(j).cloned()).collect()
    }
    fn put(&mut self, op: &J, key: &str, v: Value) {
        self.slots[op[key].as_u64().unwrap() as usize - 1] = Some(v);
    }
    fn obj(&self, op: &J) -> Option<&Obj> {
        match self.v(&op["s"]) {
            Some(Value::Obj(o)) => Some(o),
            _ => None,
        }
    }

    fn made(&mut self, op: &J, r: Result<Value, OverError>) -> J {
        match r {
            Ok(v) => {
                self.put(op, "to", v);
                ok(vec![])
            }
            Err(e) => error(&e),
        }
    }

    fn apply(&mut self, op: &J) -> J {
        let how = op["how"].as_str().unwrap_or("");
        match op["o"].as_str().unwrap() {
            "val" => {
                self.put(op, "to", scalar(&op["v"]));
                ok(vec![])
            }
            "from" => {
                let v = native(op["ty"].as_str().unwrap(), &op["v"]);
                self.put(op, "to", v);
                ok(vec![])
            }
            "arr" => {
                let a = self.args(op);
                let r = match (how, a.len()) {
                    ("try", _) => Arr::try_from(a),
                    ("mac", 1) => try_arr![a[0].clone()],
                    ("mac", 2) => try_arr![a[0].clone(), a[1].clone()],
                    ("mac", 3) => try_arr![a[0].clone(), a[1].clone(), a[2].clone(),],
                    _ => Arr::from_values(a),
                };
                self.made(op, r.map(Value::from))
            }
            "arrU" => {
                let a = self.args(op);
                let mut t = Type::Any;
                for v in &a {
                    match join(&t, &v.get_type()) {
                        Some(u) => t = u,
                        None => return ok(vec![]),
                    }
                }
                let mut a = a;
                if let Some(n) = op["keep"].as_u64() {
                    a.truncate(n as usize);
                }
                self.made(op, Ok(Arr::from_values_unchecked(a, t).into()))
            }
            "tup" => {
                let a = self.args(op);
                let t = match (how, a.len()) {
                    ("from", _) => Tup::from(a),
                    ("mac", 1) => tup!(a[0].clone()),
                    ("mac", 2) => tup!(a[0].clone(), a[1].clone()),
                    ("mac", 3) => tup!(a[0].clone(), a[1].clone(), a[2].clone(),),
                    _ => Tup::from_values(a),
                };
                self.made(op, Ok(t.into()))
            }
            "obj" => {
                let a = self.args(op);
                let ns: Vec<String> = op["args"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .zip(op["names"].as_array().unwrap())
                    .filter(|(s, _)| self.v(s).is_some())
                    .map(|(_, n)| string(n))
                    .collect();
                let parent = match op["parent"].as_u64().unwrap_or(0) {
                    0 => None,
                    _ => match self.v(&op["parent"]) {
                        Some(Value::Obj(o)) => Some(o.clone()),
                        _ => return ok(vec![]),
                    },
                };
                let pairs: Vec<Pair> = ns.iter().zip(a.iter()).map(|(n, v)| Pair(n.clone(), v.clone())).collect();
                let r = match (how, a.len()) {
                    ("mac", 1..=3) => mac_obj(&ns, &a),
                    ("unchecked", _) => Ok(Obj::from_pairs_unchecked(pairs, parent)),
                    ("mac", _) => unreachable_mac(pairs),
                    _ => Obj::from_pairs(pairs, parent),
                };
                self.made(op, r.map(Value::from))
            }
            "empty" => {
                let v: Value = match (op["k"].as_str().unwrap(), how) {
                    ("arr", "default") => Arr::default().into(),
                    ("arr", "mac") => arr![].into(),
                    ("arr", _) => Arr::empty().into(),
                    ("tup", "default") => Tup::default().into(),
                    ("tup", _) => Tup::empty().into(),
                    ("obj", "default") => Obj::default().into(),
                    ("obj", "mac") => obj! {}.into(),
                    _ => Obj::empty().into(),
                };
                self.made(op, Ok(v))
            }
            "clone" => {
                let v = self.v(&op["s"]).cloned();
                let to = op["to"].as_u64().unwrap() as usize - 1;
                // Clone the container itself, not only the value around it.
                let v = match v {
                    Some(Value::Obj(o)) => Some(Value::Obj(o.clone())),
                    v => v,
                };
                self.slots[to] = v;
                ok(vec![])
            }
            "drop" => {
                let s = op["s"].as_u64().unwrap() as usize - 1;
                self.slots[s] = None;
                ok(vec![])
            }
            "get" => match self.obj(op).map(|o| o.get(&string(&op["name"]))) {
                None => ok(vec![]),
                Some(None) => none(),
                Some(Some(v)) => self.made(op, Ok(v)),
            },
            "src" => match self.obj(op).map(|o| o.get_with_source(&string(&op["name"]))) {
                None => ok(vec![]),
                Some(None) => none(),
                Some(Some((v, src))) => {
                    self.put(op, "to", v);
                    self.put(op, "to2", src.into());
                    ok(vec![])
                }
            },
            "parent" => match self.obj(op).map(|o| o.get_parent()) {
                None => ok(vec![]),
                Some(None) => none(),
                Some(Some(p)) => self.made(op, Ok(p.into())),
            },
            "idx" => {
                let i = big(&json!(false), &op["i"]).to_usize().unwrap();
                let r = match self.v(&op["s"]) {
                    Some(Value::Arr(a)) => a.get(i),
                    Some(Value::Tup(t)) => t.get(i),
                    _ => return ok(vec![]),
                };
                self.made(op, r)
            }
            "as" => {
                let r = match self.v(&op["s"]) {
                    None => return ok(vec![]),
                    Some(v) => match op["ty"].as_str().unwrap() {
                        "bool" => v.get_bool().map(Value::Bool),
                        "int" => v.get_int().map(Value::Int),
                        "frac" => v.get_frac().map(Value::Frac),
                        "str" => v.get_str().map(Value::Str),
                        "arr" => v.get_arr().map(Value::Arr),
                        "tup" => v.get_tup().map(Value::Tup),
                        _ => v.get_obj().map(Value::Obj),
                    },
                };
                self.made(op, r)
            }
            "asf" => {
                let f = string(&op["name"]);
                let r = match self.obj(op) {
                    None => return ok(vec![]),
                    Some(v) => match op["ty"].as_str().unwrap() {
                        "bool" => v.get_bool(&f).map(Value::Bool),
                        "int" => v.get_int(&f).map(Value::Int),
                        "frac" => v.get_frac(&f).map(Value::Frac),
                        "str" => v.get_str(&f).map(Value::Str),
                        "arr" => v.get_arr(&f).map(Value::Arr),
                        "tup" => v.get_tup(&f).map(Value::Tup),
                        _ => v.get_obj(&f).map(Value::Obj),
                    },
                };
                self.made(op, r)
            }
            "q" => match self.v(&op["s"]) {
                None => ok(vec![]),
                Some(v) => ok(query(v)),
            },
            "has" => match self.obj(op) {
                None => ok(vec![]),
                Some(o) => ok(vec![i64::from(o.contains(&string(&op["name"])))]),
            },
            "cmp" => match (self.v(&op["s"]), self.v(&op["s2"])) {
                (Some(a), Some(b)) => {
                    let e = a == b;
                    // All the ways to compare must agree.
                    let agree = (b == a) == e
                        && (a != b) == !e
                        && inner_eq(a, b).map_or(true, |x| x == e)
                        && inner_eq(b, a).map_or(true, |x| x == e);
                    let p = match (enc::ptr_eq(a, b), enc::ptr_eq(b, a)) {
                        (None, None) => 2,
                        (Some(x), Some(y)) if x == y => i64::from(x),
                        _ => 9,
                    };
                    ok(vec![if agree { i64::from(e) } else { 9 }, p])
                }
                _ => ok(vec![]),
            },
            "nat" => match self.v(&op["s"]) {
                None => ok(vec![]),
                Some(v) => {
                    let (a, b) = native_eq(v, op["ty"].as_str().unwrap(), &op["v"], &op["raw"]);
                    ok(vec![if a == b { i64::from(a) } else { 9 }])
                }
            },
            "natc" => match (self.v(&op["s"]), self.v(&op["s2"])) {
                (Some(v), Some(n)) => {
                    let (a, b) = match n {
                        Value::Arr(n) => (v == n, n == v),
                        Value::Tup(n) => (v == n, n == v),
                        Value::Obj(n) => (v == n, n == v),
                        _ => return ok(vec![]),
                    };
                    ok(vec![if a == b { i64::from(a) } else { 9 }])
                }
                _ => ok(vec![]),
            },
            "valid" => ok(vec![i64::from(Obj::is_valid_field(&string(&op["name"])))]),
            "write" => {
                let before = Tup::empty().id();
                let mut extra = json!({});
                if let Some(v) = self.v(&op["s"]) {
                    extra = written(v);
                }
                let after = Tup::empty().id();
                self.skips.push((after + 1, after + 1 - before));
                let mut r = ok(vec![]);
                if let Some(ws) = extra.as_array() {
                    r = ok(vec![i64::from(ws.iter().all(|w| w["eq"] == true))]);
                }
                r["written"] = extra;
                r
            }
            o => panic!("op {}", o),
        }
    }

    fn project(&self) -> J {
        let mut w = enc::Walk::new(true, enc::LIMIT);
        let mut vals = vec![];
        for s in &self.slots {
            match s {
                None => w.out.push(-1),
                Some(v) => {
                    w.value(v);
                    vals.push(v.clone());
                }
            }
        }
        let ids: Vec<i64> = w
            .ids
            .iter()
            .map(|id| {
                let own: usize = self.skips.iter().filter(|s| s.0 <= *id).map(|s| s.1).sum();
                *id as i64 - self.base as i64 - own as i64
            })
            .collect();
        let same = w.identity_ok && enc::identity_consistent(&vals.iter().filter(|v| enc::addr(v) != 0).cloned().collect::<Vec<_>>());
        json!({"g": w.out, "refs": w.refs, "ids": ids, "same": same})
    }
}

// The macro (it has to stand where a statement can).
fn mac_obj(ns: &[String], a: &[Value]) -> Result<Obj, OverError> {
    fn one(n: &[String], a: &[Value]) -> Result<Obj, OverError> {
        try_obj! {n[0].as_str() => a[0].clone()}
    }
    fn two(n: &[String], a: &[Value]) -> Result<Obj, OverError> {
        try_obj! {n[0].as_str() => a[0].clone(), n[1].as_str() => a[1].clone()}
    }
    fn three(n: &[String], a: &[Value]) -> Result<Obj, OverError> {
        try_obj! {n[0].as_str() => a[0].clone(), n[1].as_str() => a[1].clone(), n[2].as_str() => a[2].clone()}
    }
    match a.len() {
        1 => one(ns, a),
        2 => two(ns, a),
        _ => three(ns, a),
    }
}
// The macro with no fields left.
fn unreachable_mac(pairs: Vec<Pair>) -> Result<Obj, OverError> {
    assert!(pairs.is_empty());
    Ok(obj! {})
}

// Comparison of the containers themselves.
fn inner_eq(a: &Value, b: &Value) -> Option<bool> {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => Some(a == b && !(a != b)),
        (Value::Tup(a), Value::Tup(b)) => Some(a == b && !(a != b)),
        (Value::Obj(a), Value::Obj(b)) => Some(a == b && !(a != b)),
        _ => None,
    }
}

// The harness's own idea of the common type, so that it does not use the library's.
fn join(a: &Type, b: &Type) -> Option<Type> {
    match (a, b) {
        (Type::Any, t) | (t, Type::Any) => Some(t.clone()),
        (Type::Arr(a), Type::Arr(b)) => join(a, b).map(|t| Type::Arr(Box::new(t))),
        (Type::Tup(a), Type::Tup(b)) if a.len() == b.len() => {
            a.iter().zip(b).map(|(a, b)| join(a, b)).collect::<Option<Vec<_>>>().map(Type::Tup)
        }
        (Type::Null, Type::Null)
        | (Type::Bool, Type::Bool)
        | (Type::Int, Type::Int)
        | (Type::Frac, Type::Frac)
        | (Type::Str, Type::Str)
        | (Type::Obj, Type::Obj) => Some(a.clone()),
        _ => None,
    }
}

fn query(v: &Value) -> Vec<i64> {
    let mut d = vec![];
    enc::push_type(&mut d, &v.get_type());
    d.push(i64::from(v.is_null()));
    // The ways to see the elements must agree.
    let mut seq = |len: usize, empty: bool, vals: &Vec<Value>, it: Vec<Value>, each: Vec<Value>, idx: Vec<Value>| {
        let tree = |vs: &[Value]| vs.iter().map(|v| (enc::tree(v), enc::addr(v))).collect::<Vec<_>>();
        let agree = vals.len() == len && tree(vals) == tree(&it) && tree(vals) == tree(&each) && tree(vals) == tree(&idx);
        d.push(if agree { len as i64 } else { -9 });
        d.push(i64::from(empty));
    };
    match v {
        Value::Arr(a) => {
            let mut each = vec![];
            a.with_each(|v| each.push(v.clone()));
            let idx = (0..a.len()).map(|i| a.get(i).unwrap()).collect();
            seq(a.len(), a.is_empty(), a.values_ref(), a.iter().cloned().collect(), each, idx);
        }
        Value::Tup(a) => {
            let mut each = vec![];
            a.with_each(|v| each.push(v.clone()));
            let idx = (0..a.len()).map(|i| a.get(i).unwrap()).collect();
            seq(a.len(), a.is_empty(), a.values_ref(), a.iter().cloned().collect(), each, idx);
        }
        Value::Obj(o) => {
            let mut each: Vec<Pair> = vec![];
            o.with_each(|n, v| each.push(Pair(n.clone(), v.clone())));
            let it: Vec<Pair> = o.iter().cloned().collect();
            let key = |ps: &[Pair]| ps.iter().map(|p| (p.0.clone(), enc::tree(&p.1), enc::addr(&p.1))).collect::<Vec<_>>();
            let agree = o.pairs_ref().len() == o.len() && key(o.pairs_ref()) == key(&each) && key(&each) == key(&it);
            d.push(if agree { o.len() as i64 } else { -9 });
            d.push(i64::from(o.is_empty()));
            d.push(i64::from(o.has_parent()));
            for p in &each {
                enc::push_str(&mut d, &p.0);
            }
        }
        _ => {}
    }
    d
}

// The value written, displayed, and read back.
fn written(v: &Value) -> J {
    use std::str::FromStr;
    let one = |text: String, get: &dyn Fn(&Obj) -> Option<Value>, want: &Value| {
        let back = guard(|| Obj::from_str(&text));
        let (eq, obs) = match &back {
            Ok(Ok(b)) => (get(b).map_or(false, |x| x == *want && *want == x), "ok".to_string()),
            Ok(Err(e)) => (false, e.to_string()),
            Err(m) => (false, format!("panic {}", m)),
        };
        json!({"text": text, "eq": eq, "got": obs, "want": enc::tree(want)})
    };
    let mut out = vec![];
    let mut d = one(format!("x: {}", v), &|b| b.get("x"), v);
    d["ctx"] = json!("display");
    out.push(d);
    if let Value::Obj(o) = v {
        let mut d = one(o.write_to_string(), &|b| Some(Value::Obj(b.clone())), v);
        d["ctx"] = json!("write");
        out.push(d);
    }
    json!(out)
}

pub fn run(input: &str, output: &str) {
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(output).unwrap();
    for case in cases(input) {
        let n = case["n"].as_u64().unwrap() as usize;
        let base = Tup::empty().id() + 1;
        let mut r = Run { slots: vec![None; n], base, skips: vec![] };
        let mut obs = vec![];
        let mut died = false;
        let prefix: Vec<J> = case["prefix"].as_array().cloned().unwrap_or_default();
        for op in &prefix {
            r.apply(op);
        }
        for op in case["ops"].as_array().unwrap() {
            let res = guard(|| r.apply(op));
            match res {
                Ok(mut res) => {
                    let w = res.as_object_mut().unwrap().remove("written");
                    match guard(|| r.project()) {
                        Ok(mut o) => {
                            o["res"] = res;
                            if let Some(w) = w {
                                o["written"] = w;
                            }
                            obs.push(o);
                        }
                        Err(m) => {
                            obs.push(json!({"panic": m}));
                            died = true;
                        }
                    }
                }
                Err(m) => {
                    obs.push(json!({"panic": m}));
                    died = true;
                }
            }
            if died {
                break;
            }
        }
        let _ = guard(move || drop(r));
        writeln!(out, "{}", json!({"id": case["id"], "obs": obs})).unwrap();
    }
}

