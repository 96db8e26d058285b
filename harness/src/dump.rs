//! Projection of the real objects to JSON: everything the accessors tell.
use osmio::changesets::Changeset;
use osmio::prelude::*;
use osmio::{ObjId, TimestampFormat};
use serde_json::{Map, Value, json};

pub fn ts(t: &Option<TimestampFormat>) -> Value {
    match t {
        None => Value::Null,
        Some(TimestampFormat::ISOString(s)) => json!({"iso": s}),
        Some(TimestampFormat::EpochNumber(n)) => json!({"num": n}),
    }
}

pub fn base<T: OSMObjBase>(o: &T) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("t".into(), json!(o.object_type().name_short().to_string()));
    m.insert("id".into(), json!(o.id()));
    m.insert("ver".into(), json!(o.version()));
    m.insert("del".into(), json!(o.deleted()));
    m.insert("cs".into(), json!(o.changeset_id()));
    m.insert("ts".into(), ts(o.timestamp()));
    m.insert("uid".into(), json!(o.uid()));
    m.insert("user".into(), json!(o.user()));
    m.insert(
        "tags".into(),
        Value::Array(o.tags().map(|(k, v)| json!([k, v])).collect()),
    );
    m
}

pub fn node<T: Node>(o: &T) -> Map<String, Value> {
    let mut m = base(o);
    m.insert(
        "ll".into(),
        match o.lat_lon() {
            None => Value::Null,
            Some((lat, lon)) => json!([lat.inner(), lon.inner()]),
        },
    );
    m
}

pub fn way<T: Way>(o: &T) -> Map<String, Value> {
    let mut m = base(o);
    m.insert("nodes".into(), json!(o.nodes()));
    m
}

pub fn members<T: Relation>(o: &T) -> Vec<(String, ObjId, String)> {
    o.members()
        .map(|(t, id, r)| (t.name_short().to_string(), id, r.to_string()))
        .collect()
}

pub fn relation<T: Relation>(o: &T) -> Map<String, Value> {
    let mut m = base(o);
    m.insert("mem".into(), json!(members(o)));
    m
}

pub fn obj<T: OSMObj>(o: &T) -> Map<String, Value> {
    if let Some(n) = o.as_node() {
        node(n)
    } else if let Some(w) = o.as_way() {
        way(w)
    } else if let Some(r) = o.as_relation() {
        relation(r)
    } else {
        base(o)
    }
}

pub fn changeset(c: &Changeset) -> Value {
    let mut tags: Vec<_> = c.tags.iter().collect();
    tags.sort();
    let queries = tags.iter().all(|(k, v)| c.has_tag(k) && c.tag(k) == Some(v.as_str()))
        && !c.has_tag("\u{1}no such key")
        && c.num_tags() == tags.len()
        && c.tagged() == !tags.is_empty()
        && c.untagged() == tags.is_empty();
    json!({
        "queries": queries,
        "id": c.id,
        "created": ts(&Some(c.created.clone())),
        "closed": ts(&c.closed),
        "open": c.open,
        "uid": c.uid,
        "user": c.user,
        "tags": tags,
        "num": c.num_changes,
        "com": c.comments_count,
    })
}

// ---- derived queries (P23) ----

pub fn q_base<T: OSMObjBase>(o: &T, keys: &[String]) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert(
        "tag".into(),
        Value::Array(keys.iter().map(|k| json!(o.tag(k))).collect()),
    );
    m.insert(
        "has".into(),
        Value::Array(keys.iter().map(|k| json!(o.has_tag(k))).collect()),
    );
    m.insert("num_tags".into(), json!(o.num_tags()));
    m.insert("tagged".into(), json!(o.tagged()));
    m.insert("untagged".into(), json!(o.untagged()));
    m.insert("json".into(), json!(o.tags_json_string()));
    // the announced length, before each item and at the end
    let mut it = o.tags();
    let mut lens = vec![it.len()];
    let mut hints = vec![json!(it.size_hint())];
    while it.next().is_some() {
        lens.push(it.len());
        hints.push(json!(it.size_hint()));
    }
    m.insert("lens".into(), json!(lens));
    m.insert("hints".into(), json!(hints));
    m.insert("type".into(), json!(o.object_type().name_long()));
    m
}

pub fn q_node<T: Node>(o: &T, keys: &[String]) -> Map<String, Value> {
    let mut m = q_base(o, keys);
    m.insert("has_ll".into(), json!(o.has_lat_lon()));
    m.insert("ll64".into(), json!(o.lat_lon_f64().is_some()));
    m
}

pub fn q_way<T: Way>(o: &T, keys: &[String]) -> Map<String, Value> {
    let mut m = q_base(o, keys);
    m.insert("num_nodes".into(), json!(o.num_nodes()));
    let n = o.nodes().len() + 2;
    m.insert(
        "at".into(),
        Value::Array((0..n).map(|i| json!(o.node(i))).collect()),
    );
    m.insert("at_max".into(), json!(o.node(usize::MAX)));
    m.insert("nids".into(), json!(o.nids()));
    m.insert("closed".into(), json!(o.is_closed()));
    m.insert("area".into(), json!(o.is_area()));
    m
}

pub fn q_relation<T: Relation>(o: &T, keys: &[String]) -> Map<String, Value> {
    let mut m = q_base(o, keys);
    let mut it = o.members();
    let mut lens = vec![it.len()];
    while it.next().is_some() {
        lens.push(it.len());
    }
    m.insert("mem_lens".into(), json!(lens));
    m
}

/// Kind tests and narrowing conversions of a wrapper
pub fn q_kind<T: OSMObj>(o: &mut T) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert(
        "is".into(),
        json!([o.is_node(), o.is_way(), o.is_relation()]),
    );
    m.insert(
        "as".into(),
        json!([
            o.as_node().map(|x| node(x)),
            o.as_way().map(|x| way(x)),
            o.as_relation().map(|x| relation(x))
        ]),
    );
    m.insert(
        "as_mut".into(),
        json!([
            o.as_node_mut().map(|x| node(x)),
            o.as_way_mut().map(|x| way(x)),
            o.as_relation_mut().map(|x| relation(x))
        ]),
    );
    m.insert(
        "into".into(),
        json!([
            o.clone().into_node().map(|x| node(&x)),
            o.clone().into_way().map(|x| way(&x)),
            o.clone().into_relation().map(|x| relation(&x))
        ]),
    );
    m
}
