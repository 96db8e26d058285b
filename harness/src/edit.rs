//! Builds objects, and runs histories of edits on them.
use crate::io::unhex;
use crate::{dump, guarded};
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, OSMObjectType, TimestampFormat};
use serde_json::{Map, Value, json};

pub fn ts(v: &Value) -> Option<TimestampFormat> {
    if v.is_null() {
        None
    } else if let Some(s) = v["iso"].as_str() {
        Some(TimestampFormat::ISOString(s.to_string()))
    } else {
        Some(TimestampFormat::EpochNumber(v["num"].as_i64().unwrap()))
    }
}

pub fn u32o(v: &Value) -> Option<u32> {
    v.as_u64().map(|x| x as u32)
}

pub fn ll(v: &Value) -> Option<(Lat, Lon)> {
    if v.is_null() {
        None
    } else {
        Some((
            Lat::from_inner(v[0].as_i64().unwrap() as i32),
            Lon::from_inner(v[1].as_i64().unwrap() as i32),
        ))
    }
}

pub fn mem(v: &Value) -> Vec<(OSMObjectType, i64, String)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|m| {
            (
                OSMObjectType::try_from(m[0].as_str().unwrap().chars().next().unwrap()).unwrap(),
                m[1].as_i64().unwrap(),
                m[2].as_str().unwrap().to_string(),
            )
        })
        .collect()
}

pub fn nids(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

/// An edit every object has. None: not one of those.
pub fn edit_base<T: OSMObjBase>(o: &mut T, c: &Value) -> Option<Value> {
    match c[0].as_str().unwrap() {
        "id" => o.set_id(c[1].as_i64().unwrap()),
        "ver" => o.set_version(u32o(&c[1])),
        "del" => o.set_deleted(c[1].as_bool().unwrap()),
        "cs" => o.set_changeset_id(u32o(&c[1])),
        "ts" => o.set_timestamp(ts(&c[1])),
        "uid" => o.set_uid(u32o(&c[1])),
        "user" => o.set_user(c[1].as_str()),
        "tag" => o.set_tag(c[1].as_str().unwrap(), c[2].as_str().unwrap()),
        "untag" => o.unset_tag(c[1].as_str().unwrap()),
        "strip" => o.strip_metadata(),
        _ => return None,
    }
    Some(json!("ok"))
}

pub fn edit_node<T: Node>(o: &mut T, c: &Value) -> Option<Value> {
    match c[0].as_str().unwrap() {
        "ll" => o.set_lat_lon_direct(ll(&c[1])),
        "llunset" => o.unset_lat_lon(),
        "llnone" => {
            if o.set_lat_lon(None as Option<(f64, f64)>).is_err() {
                return Some(json!("err"));
            }
        }
        "lldeg" => {
            let a: f64 = c[1].as_str().unwrap().parse().unwrap();
            let b: f64 = c[2].as_str().unwrap().parse().unwrap();
            if o.set_lat_lon((a, b)).is_err() {
                return Some(json!("err"));
            }
        }
        _ => return None,
    }
    Some(json!("ok"))
}

pub fn edit_way<T: Way>(o: &mut T, c: &Value) -> Option<Value> {
    match c[0].as_str().unwrap() {
        "nodes" => o.set_nodes(nids(&c[1])),
        _ => return None,
    }
    Some(json!("ok"))
}

pub fn edit_relation<T: Relation>(o: &mut T, c: &Value) -> Option<Value> {
    match c[0].as_str().unwrap() {
        "members" => o.set_members(mem(&c[1])),
        _ => return None,
    }
    Some(json!("ok"))
}

pub fn edit_obj<T: OSMObj>(o: &mut T, c: &Value) -> Value {
    if let Some(v) = edit_base(o, c) {
        return v;
    }
    if let Some(n) = o.as_node_mut() {
        if let Some(v) = edit_node(n, c) {
            return v;
        }
    }
    if let Some(n) = o.as_way_mut() {
        if let Some(v) = edit_way(n, c) {
            return v;
        }
    }
    if let Some(n) = o.as_relation_mut() {
        if let Some(v) = edit_relation(n, c) {
            return v;
        }
    }
    panic!("harness: unknown edit {c}")
}

/// Give the object the contents of the description, through the setters
pub fn fill<T: OSMObj>(o: &mut T, d: &Value) {
    o.set_id(d["id"].as_i64().unwrap());
    o.set_version(u32o(&d["ver"]));
    o.set_deleted(d["del"].as_bool().unwrap_or(false));
    o.set_changeset_id(u32o(&d["cs"]));
    o.set_timestamp(ts(&d["ts"]));
    o.set_uid(u32o(&d["uid"]));
    o.set_user(d["user"].as_str());
    for t in d["tags"].as_array().unwrap() {
        o.set_tag(t[0].as_str().unwrap(), t[1].as_str().unwrap());
    }
    if let Some(n) = o.as_node_mut() {
        n.set_lat_lon_direct(ll(&d["ll"]));
    }
    if let Some(w) = o.as_way_mut() {
        w.set_nodes(nids(&d["nodes"]));
    }
    if let Some(r) = o.as_relation_mut() {
        r.set_members(mem(&d["mem"]));
    }
}

pub fn new_string(t: &str) -> StringOSMObj {
    match t {
        "n" => StringNodeBuilder::default()._id(0).build().unwrap().into(),
        "w" => StringWayBuilder::default()._id(0).build().unwrap().into(),
        "r" => StringRelationBuilder::default()._id(0).build().unwrap().into(),
        _ => panic!("harness: kind {t}"),
    }
}

#[cfg(osmio_verif)]
pub fn new_rc(t: &str) -> RcOSMObj {
    match t {
        "n" => RcOSMObj::Node(RcNode::verif_new(0)),
        "w" => RcOSMObj::Way(RcWay::verif_new(0)),
        "r" => RcOSMObj::Relation(RcRelation::verif_new(0)),
        _ => panic!("harness: kind {t}"),
    }
}

pub fn new_arc(seed: &Value) -> ArcOSMObj {
    let data = unhex(seed.as_str().unwrap());
    let mut r = osmio::arcpbf::PBFReader::new(std::io::Cursor::new(data));
    r.next().expect("harness: no object in the seed")
}

/// A string object that a reader made
pub fn read_string(seed: &Value) -> StringOSMObj {
    let data = unhex(seed.as_str().unwrap());
    let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(data));
    r.next().expect("harness: no object in the seed")
}

fn keys(case: &Value) -> Vec<String> {
    case["keys"]
        .as_array()
        .map(|a| a.iter().map(|k| k.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

/// The history on a wrapper object
fn history<T: OSMObj>(mut o: T, case: &Value, conv: impl Fn(&T) -> Value) -> Value {
    let keys = keys(case);
    let want_q = case["q"].as_bool().unwrap_or(false);
    let want_conv = case["conv"].as_bool().unwrap_or(false);
    let mut out = Vec::new();
    let project = |o: &mut T| -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("o".into(), Value::Object(dump::obj(o)));
        if want_q {
            let mut q = dump::q_base(o, &keys);
            if let Some(n) = o.as_node() {
                q.insert("inner".into(), Value::Object(dump::q_node(n, &keys)));
            }
            if let Some(n) = o.as_way() {
                q.insert("inner".into(), Value::Object(dump::q_way(n, &keys)));
            }
            if let Some(n) = o.as_relation() {
                q.insert("inner".into(), Value::Object(dump::q_relation(n, &keys)));
            }
            q.insert("kind".into(), Value::Object(dump::q_kind(o)));
            m.insert("q".into(), Value::Object(q));
        }
        if want_conv {
            m.insert("conv".into(), conv(o));
        }
        m
    };
    out.push(Value::Object(project(&mut o)));
    for c in case["calls"].as_array().unwrap() {
        let before = o.clone();
        match guarded(|| edit_obj(&mut o, c)) {
            Err(p) => {
                out.push(json!({"panic": p}));
                break;
            }
            Ok(res) => match guarded(|| project(&mut o)) {
                Err(p) => {
                    out.push(json!({"panic": p}));
                    break;
                }
                Ok(mut m) => {
                    m.insert("res".into(), res);
                    m.insert("before".into(), Value::Object(dump::obj(&before)));
                    m.insert("same".into(), json!(o == before));
                    out.push(Value::Object(m));
                }
            },
        }
    }
    Value::Array(out)
}

macro_rules! direct {
    ($fname:ident, $tr:ident, $edit:ident, $dump:path, $q:path) => {
        /// The history on an object of its own type (not a wrapper)
        fn $fname<T: $tr>(mut o: T, case: &Value, conv: impl Fn(&T) -> Value) -> Value {
            let keys = keys(case);
            let want_q = case["q"].as_bool().unwrap_or(false);
            let want_conv = case["conv"].as_bool().unwrap_or(false);
            let mut out = Vec::new();
            let project = |o: &T| -> Map<String, Value> {
                let mut m = Map::new();
                m.insert("o".into(), Value::Object($dump(o)));
                if want_q {
                    m.insert("q".into(), Value::Object($q(o, &keys)));
                }
                if want_conv {
                    m.insert("conv".into(), conv(o));
                }
                m
            };
            out.push(Value::Object(project(&o)));
            for c in case["calls"].as_array().unwrap() {
                let before = o.clone();
                let r = guarded(|| {
                    edit_base(&mut o, c)
                        .or_else(|| $edit(&mut o, c))
                        .expect("harness: unknown edit")
                });
                match r {
                    Err(p) => {
                        out.push(json!({"panic": p}));
                        break;
                    }
                    Ok(res) => match guarded(|| project(&o)) {
                        Err(p) => {
                            out.push(json!({"panic": p}));
                            break;
                        }
                        Ok(mut m) => {
                            m.insert("res".into(), res);
                            m.insert("before".into(), Value::Object($dump(&before)));
                            m.insert("same".into(), json!(o == before));
                            out.push(Value::Object(m));
                        }
                    },
                }
            }
            Value::Array(out)
        }
    };
}
direct!(history_node, Node, edit_node, dump::node, dump::q_node);
direct!(history_way, Way, edit_way, dump::way, dump::q_way);
direct!(history_relation, Relation, edit_relation, dump::relation, dump::q_relation);

pub fn run(case: &Value) -> Value {
    let repr = case["repr"].as_str().unwrap();
    let t = case["t"].as_str().unwrap();
    let wrap = case["wrap"].as_bool().unwrap_or(false);
    let r = guarded(|| match repr {
        "string" => {
            let mut o = if case["seed"].is_null() { new_string(t) } else { read_string(&case["seed"]) };
            if !case["from"].is_null() {
                fill(&mut o, &case["from"]);
            }
            if wrap {
                history(o, case, |o| Value::Object(dump::obj(o)))
            } else {
                match o {
                    StringOSMObj::Node(x) => history_node(x, case, |o| Value::Object(dump::node(o))),
                    StringOSMObj::Way(x) => history_way(x, case, |o| Value::Object(dump::way(o))),
                    StringOSMObj::Relation(x) => {
                        history_relation(x, case, |o| Value::Object(dump::relation(o)))
                    }
                }
            }
        }
        "arc" => {
            let mut o = new_arc(&case["seed"]);
            if !case["from"].is_null() {
                fill(&mut o, &case["from"]);
            }
            if wrap {
                history(o, case, |o| Value::Object(dump::obj(&StringOSMObj::from(o.clone()))))
            } else {
                match o {
                    ArcOSMObj::Node(x) => {
                        history_node(x, case, |o| Value::Object(dump::node(&StringNode::from(o.clone()))))
                    }
                    ArcOSMObj::Way(x) => {
                        history_way(x, case, |o| Value::Object(dump::way(&StringWay::from(o.clone()))))
                    }
                    ArcOSMObj::Relation(x) => history_relation(x, case, |o| {
                        Value::Object(dump::relation(&StringRelation::from(o.clone())))
                    }),
                }
            }
        }
        #[cfg(osmio_verif)]
        "rc" => {
            let mut o = new_rc(t);
            if !case["from"].is_null() {
                fill(&mut o, &case["from"]);
            }
            if wrap {
                history(o, case, |o| Value::Object(dump::obj(&StringOSMObj::from(o.clone()))))
            } else {
                match o {
                    RcOSMObj::Node(x) => {
                        history_node(x, case, |o| Value::Object(dump::node(&StringNode::from(o.clone()))))
                    }
                    RcOSMObj::Way(x) => {
                        history_way(x, case, |o| Value::Object(dump::way(&StringWay::from(o.clone()))))
                    }
                    RcOSMObj::Relation(x) => history_relation(x, case, |o| {
                        Value::Object(dump::relation(&StringRelation::from(o.clone())))
                    }),
                }
            }
        }
        _ => json!({"skipped": true}),
    });
    match r {
        Ok(v) => v,
        Err(p) => json!({"panic": p}),
    }
}
