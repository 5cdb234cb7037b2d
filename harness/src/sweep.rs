//! What the library does with every single character: a signature per code point, as runs of equal ones.
//!
//!   sweep LO HI COLS    code points LO..HI (exclusive); entries that are not in COLS (1,2,...) are left at -1
use crate::docs::guard;
use over::{obj::Obj, obj::Pair, value::Value, OverError};
use serde_json::json;
use std::str::FromStr;

fn load(s: &str) -> Result<Obj, Option<OverError>> {
    match guard(|| Obj::from_str(s)) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(Some(e)),
        Err(_) => Err(None),
    }
}

const BAD: i64 = 9; // a panic, or something no specification allows

// 1 when the load succeeds and f holds, 0 when it is rejected.
fn ok(s: &str, f: impl FnOnce(&Obj) -> bool) -> i64 {
    match load(s) {
        Ok(o) => {
            if guard(|| f(&o)).unwrap_or(false) {
                1
            } else {
                2
            }
        }
        Err(Some(_)) => 0,
        Err(None) => BAD,
    }
}

fn ctor(names: &[&str]) -> i64 {
    let ps = names.iter().map(|n| Pair(n.to_string(), Value::Null)).collect();
    match guard(|| Obj::from_pairs(ps, None)) {
        Ok(Ok(_)) => 1,
        Ok(Err(OverError::InvalidFieldName(n))) => {
            // The first name that is not valid.
            if names.iter().find(|n| !Obj::is_valid_field(n)).map_or(false, |m| **m == n) {
                0
            } else {
                2
            }
        }
        _ => BAD,
    }
}

fn column(m: &str) -> i64 {
    m.split("column ").nth(1).map_or(-1, |s| s.chars().take_while(char::is_ascii_digit).collect::<String>().parse().unwrap_or(-1))
}
fn line(m: &str) -> i64 {
    m.split("line ").nth(1).map_or(-1, |s| s.chars().take_while(char::is_ascii_digit).collect::<String>().parse().unwrap_or(-1))
}

fn place(s: &str) -> i64 {
    match load(s) {
        Ok(_) => 0,
        Err(Some(e)) => {
            let m = e.to_string();
            line(&m) * 100 + column(&m)
        }
        Err(None) => BAD,
    }
}

pub fn signature(c: char, cols: &[usize]) -> Vec<i64> {
    let one = c.to_string();
    let two = format!("a{}", c);
    let mid = format!("a{}b", c);
    let b = |x: bool| i64::from(x);
    let text = |o: &Obj, f: &str, want: &str| o.get_str(f).map_or(false, |s| s == want);
    let quoted = format!("\\{}", c);
    let reload = |o: &Obj| ok(&o.write_to_string(), |p| p == o);
    let strs = Obj::from_pairs_unchecked(
        vec![Pair("s".into(), one.as_str().into()), Pair("t".into(), format!("x{}{}y", c, c).as_str().into())],
        None,
    );
    let mut out = vec![-1; 26];
    let mut n = 0;
    macro_rules! entry {
        ($e:expr) => {
            n += 1;
            if cols.contains(&n) {
                out[n - 1] = $e;
            }
        };
    }
    // 1-3: the validity test
    entry!(b(Obj::is_valid_field(&one)));
    entry!(b(Obj::is_valid_field(&two)));
    entry!(b(Obj::is_valid_field(&mid)));
    // 4-6: the constructor
    entry!(ctor(&[&one]));
    entry!(ctor(&["ok", &two]));
    entry!(ctor(&["ok", &mid, "1"]));
    // 7-10: the loader's fields and globals
    entry!(ok(&format!("{}: null", one), |o| o.len() == 1 && o.contains(&one)));
    entry!(ok(&format!("{}: null", two), |o| o.len() == 1 && o.contains(&two)));
    entry!(ok(&format!("@{}: null", one), |o| o.len() == 0));
    entry!(ok(&format!("@{}: null x: @{}", mid, mid), |o| o.len() == 1));
    // 11-12: names as values, behind dots
    entry!(ok(&format!("{}: 1 q: {}", two, two), |o| o.get("q") == Some(1.into())));
    entry!(ok(&format!("o: {{{}: 1}} q: o.{}", one, one), |o| o.get("q") == Some(1.into())));
    // 13-15: white space
    entry!(ok(&format!("q:{}null", c), |o| o.len() == 1 && o.get("q") == Some(Value::Null)));
    entry!(ok(&format!("q: null{}r: null", c), |o| o.len() == 2 && o.contains("r")));
    entry!(ok(&format!("q: [null{}null]", c), |o| o.get_arr("q").map_or(0, |a| a.len()) == 2));
    // 16-19: strings, escapes and comments
    entry!(ok(&format!("q: \"{}\"", c), |o| text(o, "q", &one)));
    entry!(ok(&format!("q: \"x{}y\" r: null", c), |o| text(o, "q", &format!("x{}y", c)) && o.len() == 2));
    entry!(ok(&format!("q: \"{}\"", quoted), |o| {
            let want = match c {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                o => o,
            };
            text(o, "q", &want.to_string())
        }));
    entry!(ok(&format!("q: null #{}!{}\nr: null", c, c), |o| o.len() == 2));
    // 20: digits
    entry!(ok(&format!("q: 1{}", c), |o| o.get_int("q").map_or(false, |n| n == num_bigint::BigInt::from(10 + c.to_digit(10).unwrap_or(90)))));
    // 21-22: columns, in strings and in comments
    entry!(place(&format!("q: \"{}\" !", c)));
    entry!(place(&format!("#{}\n !", c)));
    // 23-24: written and read back; displayed
    entry!(reload(&strs));
    entry!(if Obj::is_valid_field(&mid) {
            reload(&Obj::from_pairs_unchecked(vec![Pair(mid.clone(), 1.into())], None))
        } else {
            3
        });
    // 25-26: displayed and read back, alone and inside a tuple
    let shown = |v: Value| ok(&format!("q: {} r: null", v), |o| o.get("q") == Some(v.clone()) && o.len() == 2);
    entry!(shown(one.as_str().into()));
    entry!(shown(over::tup::Tup::from_values(vec![format!("{}x{}", c, c).into(), Value::Null]).into()));
    out
}

pub fn run(lo: u32, hi: u32, cols: &str) {
    let cols: Vec<usize> = cols.split(',').map(|c| c.parse().unwrap()).collect();
    let mut runs: Vec<(u32, u32, Vec<i64>)> = vec![];
    for i in lo..hi {
        let c = match std::char::from_u32(i) {
            Some(c) => c,
            None => continue,
        };
        let s = signature(c, &cols);
        match runs.last_mut() {
            Some(r) if r.2 == s && r.1 + 1 == i => r.1 = i,
            _ => runs.push((i, i, s)),
        }
    }
    println!("{}", json!(runs));
}
