//! Relations between types.  Input: first line all types ("types", a list of flat encodings), then one
//! line per job: {id, rows: [[i, j, j, ...], ...]}, naming pairs of types by index (from 0).  Output per job:
//! for every row the observations of type i on its own and of every pair (i, j).
use crate::{docs::guard, enc};
use over::types::Type;
use serde_json::{json, Value as J};
use std::{
    fs,
    io::{BufRead, BufReader, Write},
};

fn decode(f: &[J], at: &mut usize) -> Type {
    let k = f[*at].as_i64().unwrap();
    *at += 1;
    match k {
        0 => Type::Any,
        1 => Type::Null,
        2 => Type::Bool,
        3 => Type::Int,
        4 => Type::Frac,
        5 => Type::Str,
        6 => Type::Arr(Box::new(decode(f, at))),
        7 => {
            let n = f[*at].as_u64().unwrap();
            *at += 1;
            Type::Tup((0..n).map(|_| decode(f, at)).collect())
        }
        _ => Type::Obj,
    }
}

fn flat(t: &Type) -> Vec<i64> {
    let mut v = vec![];
    enc::push_type(&mut v, t);
    v
}

pub fn run(input: &str, output: &str) {
    let mut lines = BufReader::new(fs::File::open(input).unwrap()).lines();
    let head: J = serde_json::from_str(&lines.next().unwrap().unwrap()).unwrap();
    let types: Vec<Type> =
        head["types"].as_array().unwrap().iter().map(|f| decode(f.as_array().unwrap(), &mut 0)).collect();
    let index: std::collections::HashMap<Vec<i64>, usize> =
        types.iter().enumerate().map(|(i, t)| (flat(t), i)).collect();
    let mut out = fs::OpenOptions::new().append(true).create(true).open(output).unwrap();
    for l in lines {
        let job: J = serde_json::from_str(&l.unwrap()).unwrap();
        let mut rows = vec![];
        for row in job["rows"].as_array().unwrap() {
            let row: Vec<usize> = row.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let a = &types[row[0]];
            let r = guard(|| {
                let one = json!({
                    "any": a.has_any(), "show": enc_str(&a.to_string()),
                    "pad": enc_str(&format!("{}", a.clone())),
                });
                let pairs: Vec<J> = row[1..]
                    .iter()
                    .map(|&j| {
                        let b = &types[j];
                        let bits = u8::from(a == b)
                            + 2 * u8::from(b == a)
                            + 4 * u8::from(a.is(b))
                            + 8 * u8::from(b.is(a))
                            + 16 * u8::from((a != b) != (a == b));
                        let m = |x: &Type, y: &Type| match Type::most_specific(x, y) {
                            None => json!([]),
                            // The index of the type, counted from 1, or its encoding when it is not among them.
                            Some((t, any)) => match index.get(&flat(&t)) {
                                Some(i) => json!([i + 1, u8::from(any)]),
                                None => json!([0, u8::from(any), flat(&t)]),
                            },
                        };
                        json!([bits, m(a, b), m(b, a)])
                    })
                    .collect();
                json!({"one": one, "pairs": pairs})
            });
            rows.push(r.unwrap_or_else(|m| json!({"panic": m})));
        }
        writeln!(out, "{}", json!({"id": job["id"], "rows": rows})).unwrap();
    }
}

fn enc_str(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
