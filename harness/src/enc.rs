//! Flat encodings of values, types and graphs (see spec/OverValues.tla, spec/OverTypes.tla).

use num_bigint::{BigInt, Sign};
use over::{arr::Arr, obj::Obj, tup::Tup, types::Type, value::Value, ReferenceType};
use std::collections::HashMap;

pub fn limbs(n: &BigInt) -> Vec<i64> {
    let (_, digits) = n.to_radix_be(10);
    if n.sign() == Sign::NoSign {
        return vec![];
    }
    let mut out = vec![];
    let mut end = digits.len();
    while end > 0 {
        let start = end.saturating_sub(4);
        out.push(digits[start..end].iter().fold(0i64, |a, d| a * 10 + i64::from(*d)));
        end = start;
    }
    out
}

fn push_mag(out: &mut Vec<i64>, n: &BigInt) {
    let l = limbs(n);
    out.push(l.len() as i64);
    out.extend(l);
}

pub fn push_type(out: &mut Vec<i64>, t: &Type) {
    match t {
        Type::Any => out.push(0),
        Type::Null => out.push(1),
        Type::Bool => out.push(2),
        Type::Int => out.push(3),
        Type::Frac => out.push(4),
        Type::Str => out.push(5),
        Type::Arr(t) => {
            out.push(6);
            push_type(out, t);
        }
        Type::Tup(ts) => {
            out.push(7);
            out.push(ts.len() as i64);
            for t in ts {
                push_type(out, t);
            }
        }
        Type::Obj => out.push(8),
    }
}

pub fn push_str(out: &mut Vec<i64>, s: &str) {
    let cs: Vec<i64> = s.chars().map(|c| c as i64).collect();
    out.push(cs.len() as i64);
    out.extend(cs);
}

/// The address of an instance: what tells it apart from every other live instance.
pub fn addr_arr(a: &Arr) -> usize {
    a.values_ref() as *const Vec<Value> as usize
}
pub fn addr_tup(t: &Tup) -> usize {
    t.values_ref() as *const Vec<Value> as usize
}
pub fn addr_obj(o: &Obj) -> usize {
    o.pairs_ref() as *const _ as usize
}

/// Walks a graph and encodes it, numbering instances in depth-first order.
#[derive(Default)]
pub struct Walk {
    pub out: Vec<i64>,
    pub refs: Vec<i64>,
    pub ids: Vec<usize>,
    /// False if identity as told by ids, pointers and addresses disagrees somewhere.
    pub identity_ok: bool,
    seen: HashMap<usize, usize>,
    by_id: HashMap<usize, usize>,
    sharing: bool,
    limit: usize,
    pub overflow: bool,
}

impl Walk {
    pub fn new(sharing: bool, limit: usize) -> Self {
        Walk { identity_ok: true, sharing, limit, ..Default::default() }
    }

    // Returns true if the instance was already seen.
    fn visit(&mut self, addr: usize, id: usize, refs: usize) -> bool {
        if !self.sharing {
            return false;
        }
        if let Some(n) = self.seen.get(&addr) {
            self.out.push(9);
            self.out.push(*n as i64);
            if self.by_id.get(&id) != Some(&addr) {
                self.identity_ok = false;
            }
            return true;
        }
        let n = self.seen.len() + 1;
        self.seen.insert(addr, n);
        if self.by_id.insert(id, addr).is_some() {
            self.identity_ok = false; // same ID for two instances
        }
        self.refs.push(refs as i64);
        self.ids.push(id);
        false
    }

    pub fn value(&mut self, v: &Value) {
        if self.out.len() > self.limit {
            self.overflow = true;
            return;
        }
        match v {
            Value::Null => self.out.push(1),
            Value::Bool(b) => self.out.extend([2, i64::from(*b)]),
            Value::Int(i) => {
                self.out.extend([3, i64::from(i.sign() == Sign::Minus)]);
                push_mag(&mut self.out, i);
            }
            Value::Frac(f) => {
                self.out.extend([4, i64::from(f.numer().sign() == Sign::Minus)]);
                push_mag(&mut self.out, f.numer());
                if f.denom().sign() != Sign::Plus {
                    self.out.push(-1); // not in lowest terms with a positive denominator
                }
                push_mag(&mut self.out, f.denom());
            }
            Value::Str(s) => {
                self.out.push(5);
                push_str(&mut self.out, s);
            }
            Value::Arr(a) => self.arr(a, a.num_references()),
            Value::Tup(t) => self.tup(t, t.num_references()),
            Value::Obj(o) => self.obj(o, o.num_references()),
        }
    }

    pub fn arr(&mut self, a: &Arr, refs: usize) {
        let addr = addr_arr(a);
        if self.visit(addr, a.id(), refs) {
            return;
        }
        self.out.push(6);
        push_type(&mut self.out, &a.inner_type());
        self.out.push(a.len() as i64);
        for v in a.values_ref() {
            self.value(v);
        }
    }

    pub fn tup(&mut self, t: &Tup, refs: usize) {
        if self.visit(addr_tup(t), t.id(), refs) {
            return;
        }
        self.out.push(7);
        push_type(&mut self.out, &Type::Tup(t.inner_type_vec()));
        self.out.push(t.len() as i64);
        for v in t.values_ref() {
            self.value(v);
        }
    }

    pub fn obj(&mut self, o: &Obj, refs: usize) {
        if self.visit(addr_obj(o), o.id(), refs) {
            return;
        }
        self.out.push(8);
        match o.get_parent() {
            None => {
                self.out.push(0);
                if o.has_parent() {
                    self.identity_ok = false;
                }
            }
            Some(p) => {
                self.out.push(1);
                let refs = p.num_references() - 1; // not counting `p` itself
                self.obj(&p, refs);
            }
        }
        self.out.push(o.len() as i64);
        for over::obj::Pair(name, v) in o.pairs_ref() {
            push_str(&mut self.out, name);
            self.value(v);
        }
    }
}

pub const LIMIT: usize = 400_000;

/// Encoding with sharing, reference counts and IDs of an object.
pub fn graph(o: &Obj) -> Walk {
    let mut w = Walk::new(true, LIMIT);
    w.obj(o, o.num_references());
    w
}

/// Encoding without sharing; None when it would be too large.
pub fn tree_obj(o: &Obj) -> Option<Vec<i64>> {
    let mut w = Walk::new(false, LIMIT);
    w.obj(o, 0);
    if w.overflow { None } else { Some(w.out) }
}
pub fn tree(v: &Value) -> Option<Vec<i64>> {
    let mut w = Walk::new(false, LIMIT);
    w.value(v);
    if w.overflow { None } else { Some(w.out) }
}

pub fn addr(v: &Value) -> usize {
    match v {
        Value::Arr(a) => addr_arr(a),
        Value::Tup(t) => addr_tup(t),
        Value::Obj(o) => addr_obj(o),
        _ => 0,
    }
}
pub fn id(v: &Value) -> usize {
    match v {
        Value::Arr(a) => a.id(),
        Value::Tup(t) => t.id(),
        Value::Obj(o) => o.id(),
        _ => usize::MAX,
    }
}
pub fn refs(v: &Value) -> usize {
    match v {
        Value::Arr(a) => a.num_references(),
        Value::Tup(t) => t.num_references(),
        Value::Obj(o) => o.num_references(),
        _ => 0,
    }
}
/// ptr_eq of two values of the same container kind.
pub fn ptr_eq(a: &Value, b: &Value) -> Option<bool> {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => Some(a.ptr_eq(b)),
        (Value::Tup(a), Value::Tup(b)) => Some(a.ptr_eq(b)),
        (Value::Obj(a), Value::Obj(b)) => Some(a.ptr_eq(b)),
        _ => None,
    }
}

fn collect_into(v: &Value, seen: &mut Vec<Value>, max: usize) {
    if seen.len() >= max || id(v) == usize::MAX || seen.iter().any(|w| addr(w) == addr(v)) {
        return;
    }
    seen.push(v.clone());
    match v {
        Value::Arr(a) => a.values_ref().iter().for_each(|v| collect_into(v, seen, max)),
        Value::Tup(t) => t.values_ref().iter().for_each(|v| collect_into(v, seen, max)),
        Value::Obj(o) => {
            if let Some(p) = o.get_parent() {
                collect_into(&p.into(), seen, max);
            }
            o.pairs_ref().iter().for_each(|p| collect_into(&p.1, seen, max));
        }
        _ => {}
    }
}

/// Clones of (at most max) distinct instances reachable from an object, itself first.
pub fn collect(o: &Obj, max: usize) -> Vec<Value> {
    let mut seen = vec![];
    collect_into(&Value::Obj(o.clone()), &mut seen, max);
    seen
}

/// Addresses, IDs and ptr_eq agree on which instances are the same.
pub fn identity_consistent(vs: &[Value]) -> bool {
    vs.iter().all(|a| {
        vs.iter().all(|b| {
            let same = addr(a) == addr(b);
            same == (id(a) == id(b)) && ptr_eq(a, b).map_or(true, |e| e == same)
        })
    })
}
