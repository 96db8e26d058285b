//! Several objects, copied from one variable to another, changed and compared.
use crate::io::unhex;
use crate::{dump, edit, guarded};
use osmio::obj_types::*;
use osmio::prelude::*;
use serde_json::{Value, json};

/// The histories on the slots: after each step, what each holds and how they compare
fn handles<T: Clone + PartialEq>(
    mut slots: Vec<Option<T>>,
    case: &Value,
    edit: impl Fn(&mut T, &Value) -> Value,
    dump: impl Fn(&T) -> Value,
) -> Value {
    let look = |slots: &[Option<T>]| -> Value {
        let table = |f: &dyn Fn(&T, &T) -> bool| -> Value {
            Value::Array(
                slots
                    .iter()
                    .map(|a| {
                        json!(
                            slots
                                .iter()
                                .map(|b| matches!((a, b), (Some(a), Some(b)) if f(a, b)))
                                .collect::<Vec<bool>>()
                        )
                    })
                    .collect(),
            )
        };
        let o: Vec<Value> = slots
            .iter()
            .map(|s| s.as_ref().map(&dump).unwrap_or(Value::Null))
            .collect();
        json!({"o": o, "eq": table(&|a, b| a == b), "ne": table(&|a, b| a != b)})
    };
    let mut out = Vec::new();
    match guarded(|| look(&slots)) {
        Ok(v) => out.push(v),
        Err(p) => return json!({"panic": p}),
    }
    for s in case["steps"].as_array().unwrap() {
        let at = |k: usize| s[k].as_u64().unwrap() as usize;
        let r = guarded(|| {
            match s[0].as_str().unwrap() {
                "clone" => {
                    let c = slots[at(1)].clone();
                    slots[at(2)] = c;
                }
                // into what is there already
                "clone_from" => {
                    let src = slots[at(1)].take();
                    slots[at(2)].clone_from(&src);
                    slots[at(1)] = src;
                }
                "inner_from" => {
                    let src = slots[at(1)].take().unwrap();
                    match slots[at(2)].as_mut() {
                        Some(d) => d.clone_from(&src),
                        None => slots[at(2)] = Some(src.clone()),
                    }
                    slots[at(1)] = Some(src);
                }
                // the copy stays, the original goes
                "swapped" => {
                    let c = slots[at(1)].clone();
                    slots[at(2)] = std::mem::replace(&mut slots[at(1)], c);
                }
                "drop" => slots[at(2)] = None,
                "edit" => {
                    edit(slots[at(2)].as_mut().unwrap(), &s[3]);
                }
                x => panic!("harness: step {x}"),
            }
            look(&slots)
        });
        match r {
            Ok(v) => out.push(v),
            Err(p) => {
                out.push(json!({"panic": p}));
                break;
            }
        }
    }
    Value::Array(out)
}

/// A string object made by its builder, with only what differs from the defaults
fn built(d: &Value) -> StringOSMObj {
    let tags = d["tags"].as_array().unwrap();
    macro_rules! common {
        ($b:ident) => {
            $b._id(d["id"].as_i64().unwrap());
            if let Some(v) = edit::u32o(&d["ver"]) {
                $b._version(v);
            }
            if d["del"].as_bool().unwrap() {
                $b._deleted(true);
            }
            if let Some(v) = edit::u32o(&d["cs"]) {
                $b._changeset_id(v);
            }
            if let Some(v) = edit::ts(&d["ts"]) {
                $b._timestamp(v);
            }
            if let Some(v) = edit::u32o(&d["uid"]) {
                $b._uid(v);
            }
            if let Some(v) = d["user"].as_str() {
                $b._user(v.into());
            }
            if !tags.is_empty() {
                $b._tags(
                    tags.iter()
                        .map(|t| (t[0].as_str().unwrap().into(), t[1].as_str().unwrap().into()))
                        .collect(),
                );
            }
        };
    }
    match d["t"].as_str().unwrap() {
        "n" => {
            let mut b = StringNodeBuilder::default();
            common!(b);
            if let Some(ll) = edit::ll(&d["ll"]) {
                b._lat_lon(ll);
            }
            b.build().unwrap().into()
        }
        "w" => {
            let mut b = StringWayBuilder::default();
            common!(b);
            let nodes = edit::nids(&d["nodes"]);
            if !nodes.is_empty() {
                b._nodes(nodes.into_iter().collect());
            }
            b.build().unwrap().into()
        }
        _ => {
            let mut b = StringRelationBuilder::default();
            common!(b);
            let mem = edit::mem(&d["mem"]);
            if !mem.is_empty() {
                b._members(mem.into_iter().map(|(t, i, r)| (t, i, r.into())).collect());
            }
            b.build().unwrap().into()
        }
    }
}

/// The slots, as described: each object from its own file, filled by hand, or one of the objects of a file they share
fn slots<T: OSMObj>(case: &Value, blank: impl Fn(&Value) -> T, shared: &[T]) -> Vec<Option<T>> {
    case["slots"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| {
            if d.is_null() {
                return None;
            }
            if let Some(k) = d["nth"].as_u64() {
                return Some(shared[k as usize].clone());
            }
            let mut o = blank(d);
            if !d["from"].is_null() {
                edit::fill(&mut o, &d["from"]);
            }
            Some(o)
        })
        .collect()
}

macro_rules! run_as {
    ($case:ident, $slots:expr) => {{
        let slots = $slots;
        if $case["wrap"].as_bool().unwrap() {
            handles(slots, $case, |o, c| edit::edit_obj(o, c), |o| Value::Object(dump::obj(o)))
        } else {
            match $case["t"].as_str().unwrap() {
                "n" => handles(
                    slots.into_iter().map(|s| s.map(|o| o.into_node().unwrap())).collect(),
                    $case,
                    |o, c| edit::edit_base(o, c).or_else(|| edit::edit_node(o, c)).unwrap(),
                    |o| Value::Object(dump::node(o)),
                ),
                "w" => handles(
                    slots.into_iter().map(|s| s.map(|o| o.into_way().unwrap())).collect(),
                    $case,
                    |o, c| edit::edit_base(o, c).or_else(|| edit::edit_way(o, c)).unwrap(),
                    |o| Value::Object(dump::way(o)),
                ),
                _ => handles(
                    slots.into_iter().map(|s| s.map(|o| o.into_relation().unwrap())).collect(),
                    $case,
                    |o, c| edit::edit_base(o, c).or_else(|| edit::edit_relation(o, c)).unwrap(),
                    |o| Value::Object(dump::relation(o)),
                ),
            }
        }
    }};
}

pub fn run(case: &Value) -> Value {
    let file = case["file"].as_str().map(unhex).unwrap_or_default();
    let cursor = || std::io::Cursor::new(file.clone());
    let r = guarded(|| match case["repr"].as_str().unwrap() {
        "string" => {
            let shared: Vec<StringOSMObj> = if case["xml"].as_bool().unwrap_or(false) {
                osmio::xml::XMLReader::new(cursor()).objects().collect()
            } else {
                osmio::stringpbf::PBFReader::new(cursor()).objects().collect()
            };
            run_as!(case, slots(case, |d| if d["built"].is_null() { edit::new_string(d["t"].as_str().unwrap()) } else { built(&d["built"]) }, &shared))
        }
        "arc" => {
            let shared: Vec<ArcOSMObj> = osmio::arcpbf::PBFReader::new(cursor()).objects().collect();
            run_as!(case, slots(case, |d| edit::new_arc(&d["seed"]), &shared))
        }
        #[cfg(osmio_verif)]
        "rc" => run_as!(case, slots(case, |d| edit::new_rc(d["t"].as_str().unwrap()), &[])),
        _ => json!({"skipped": true}),
    });
    match r {
        Ok(v) => v,
        Err(p) => json!({"panic": p}),
    }
}
