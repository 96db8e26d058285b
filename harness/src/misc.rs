//! Time stamps, coordinates and kind names.
use crate::{dump, edit, guarded};
use osmio::{Lat, Lon, OSMObjectType, ParseLatLonError, TimestampFormat};
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::str::FromStr;

fn or_panic<T>(f: impl FnOnce() -> T, g: impl FnOnce(T) -> Value) -> Value {
    match guarded(f) {
        Ok(x) => g(x),
        Err(_) => json!("panic"),
    }
}

/// Serialised, as text and as a value, and back
fn serde_back<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> [Option<T>; 2] {
    [
        serde_json::to_string(x).ok().and_then(|s| serde_json::from_str(&s).ok()),
        serde_json::to_value(x).ok().and_then(|v| serde_json::from_value(v).ok()),
    ]
}

pub fn time(case: &Value) -> Value {
    match case["what"].as_str().unwrap() {
        "conv" => {
            let t = edit::ts(&case["a"]).unwrap();
            json!({
                "iso": or_panic(|| t.to_iso_string(), |x| json!(x)),
                "num": or_panic(|| t.to_epoch_number(), |x| json!(x)),
                "disp": or_panic(|| t.to_string(), |x| json!(x)),
                "serde": or_panic(|| serde_back(&t), |x| json!(x.map(|t| dump::ts(&t)))),
                "util": or_panic(
                    || match &t {
                        TimestampFormat::EpochNumber(n) => json!(osmio::utils::epoch_to_iso(*n)),
                        TimestampFormat::ISOString(s) => json!(osmio::utils::iso_to_epoch(s)),
                    },
                    |x| x,
                ),
            })
        }
        "many" => Value::Array(case["items"].as_array().unwrap().iter().map(time).collect()),
        "parse" => or_panic(
            || TimestampFormat::from_str(case["s"].as_str().unwrap()),
            |r| match r {
                Ok(t) => json!({"ok": dump::ts(&Some(t))}),
                Err(_) => json!("err"),
            },
        ),
        "from" => {
            let n = case["n"].as_i64().unwrap();
            let mut v = vec![dump::ts(&Some(TimestampFormat::from(n)))];
            if let Ok(n) = i32::try_from(n) {
                v.push(dump::ts(&Some(TimestampFormat::from(n))));
            }
            if let Ok(n) = u32::try_from(n) {
                v.push(dump::ts(&Some(TimestampFormat::from(n))));
            }
            json!(v)
        }
        "cmp" => {
            let a = edit::ts(&case["a"]).unwrap();
            let b = edit::ts(&case["b"]).unwrap();
            or_panic(
                || {
                    let c = match a.partial_cmp(&b) {
                        Some(Ordering::Less) => "lt",
                        Some(Ordering::Equal) => "eq",
                        Some(Ordering::Greater) => "gt",
                        None => "none",
                    };
                    json!([c, a == b, a != b, a < b, a <= b, a > b, a >= b])
                },
                |v| v,
            )
        }
        other => json!({"harness_error": other}),
    }
}

macro_rules! coord_impl {
    ($t:ident, $case:expr) => {{
        let err = |e: ParseLatLonError| match e {
            ParseLatLonError::TooLarge(_) => "large",
            ParseLatLonError::TooSmall(_) => "small",
            _ => "parse",
        };
        let show = |x: $t| {
            let d = x.degrees();
            let s = x.to_string();
            let f: f64 = x.into();
            // against its neighbours, the middle and the ends
            let ys = [x.inner().saturating_sub(1), x.inner(), x.inner().saturating_add(1), 0, i32::MIN, i32::MAX];
            let cmp: Vec<Value> = ys
                .iter()
                .map(|&y| {
                    let b = $t::from_inner(y);
                    let less = x < b;
                    json!([y, x.cmp(&b) as i32, x.partial_cmp(&b).map(|o| o as i32), x == b, less])
                })
                .collect();
            json!({
                "inner": x.inner(),
                "deg": format!("{:e}", d),
                "same64": f == d,
                "s": s,
                "back": $t::try_from(d).ok().map(|x| x.inner()),
                "sback": s.parse::<$t>().ok().map(|x| x.inner()),
                "dback": format!("{:?}", x).parse::<$t>().ok().map(|x| x.inner()),
                "jback": serde_back(&x).map(|x| x.map(|x| x.inner())),
                "idegsame": osmio::lat_lon_inner_to_degrees(x.inner()) == d,
                "cmp": cmp,
            })
        };
        match $case["what"].as_str().unwrap() {
            "text" => match $t::from_str($case["s"].as_str().unwrap()) {
                Ok(x) => json!({"ok": show(x)}),
                Err(e) => json!({"err": err(e), "msg": e_msg()}),
            },
            "num" => match $t::try_from($case["s"].as_str().unwrap().parse::<f64>().unwrap()) {
                Ok(x) => json!({"ok": show(x)}),
                Err(e) => json!({"err": err(e)}),
            },
            "num32" => match $t::try_from($case["s"].as_str().unwrap().parse::<f32>().unwrap()) {
                Ok(x) => json!({"ok": show(x)}),
                Err(e) => json!({"err": err(e)}),
            },
            // all values of a range: to degrees and back, to text and back
            "sweep" => {
                let (from, to) = ($case["from"].as_i64().unwrap(), $case["to"].as_i64().unwrap());
                let text = $case["text"].as_bool().unwrap();
                let mut bad = Vec::new();
                let mut s = String::new();
                for i in from..=to {
                    let x = $t::from_inner(i as i32);
                    let d = x.degrees();
                    let mut ok = i64::from(x.inner()) == i
                        && (d * 1e7 - i as f64).abs() < 0.01
                        && matches!($t::try_from(d), Ok(y) if i64::from(y.inner()) == i);
                    if text {
                        use std::fmt::Write;
                        s.clear();
                        write!(s, "{}", x).unwrap();
                        ok = ok && matches!(s.parse::<$t>(), Ok(y) if i64::from(y.inner()) == i);
                    }
                    if !ok && bad.len() < 5 {
                        bad.push(i);
                    }
                }
                json!({"n": to - from + 1, "bad": bad})
            }
            "many" => Value::Array($case["items"].as_array().unwrap().iter().map(coord).collect()),
            "inner" => json!({"ok": show($t::from_inner($case["n"].as_i64().unwrap() as i32))}),
            other => json!({"harness_error": other}),
        }
    }};
}

fn e_msg() -> &'static str {
    ""
}

pub fn coord(case: &Value) -> Value {
    match guarded(|| {
        if case["axis"] == "lat" {
            coord_impl!(Lat, case)
        } else {
            coord_impl!(Lon, case)
        }
    }) {
        Ok(v) => v,
        Err(p) => json!({"panic": p}),
    }
}

pub fn kinds(case: &Value) -> Value {
    let all = [
        OSMObjectType::Node,
        OSMObjectType::Way,
        OSMObjectType::Relation,
    ];
    let names: Vec<Value> = all
        .iter()
        .map(|t| {
            json!({
                "short": t.name_short().to_string(), "long": t.name_long(),
                "disp": t.to_string(), "debug": format!("{:?}", t),
            })
        })
        .collect();
    let show = |t: OSMObjectType| all.iter().position(|x| *x == t).unwrap() as i64;
    let parsed: Vec<i64> = case["parse"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| s.as_str().unwrap().parse::<OSMObjectType>().map(show).unwrap_or(-1))
        .collect();
    let chars: Vec<i64> = case["chars"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| {
            OSMObjectType::try_from(s.as_str().unwrap().chars().next().unwrap())
                .map(show)
                .unwrap_or(-1)
        })
        .collect();
    let order: Vec<Vec<i64>> = all
        .iter()
        .map(|a| all.iter().map(|b| a.cmp(b) as i64).collect())
        .collect();
    json!({"names": names, "parsed": parsed, "chars": chars, "order": order,
        "below": all.iter().map(|a| all.iter().map(|b| a < b).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "serde": all.iter().map(|t| serde_back(t).map(|t| t.map(show))).collect::<Vec<_>>()})
}
