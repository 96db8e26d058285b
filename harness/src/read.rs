//! Runs a history of calls on a reader.
use crate::io::{Source, unhex};
use crate::{Ctx, dump, guarded};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::prelude::*;
use osmio::stringpbf::PBFNodePositionReader;
use serde_json::{Map, Value, json};
use std::io::Read;

const RUNAWAY: usize = 20_000;

fn pull<I: Iterator>(mut it: I, k: usize, f: impl Fn(I::Item) -> Map<String, Value>) -> (Vec<Value>, &'static str) {
    let mut items = Vec::new();
    while items.len() < k {
        match it.next() {
            None => return (items, "none"),
            Some(x) => items.push(Value::Object(f(x))),
        }
    }
    (items, if k >= RUNAWAY { "runaway" } else { "more" })
}

fn call_generic<T: OSMReader>(r: &mut T, what: &str, k: usize, inherent: bool) -> (Vec<Value>, &'static str) {
    // calls through the trait: any reader
    let _ = inherent;
    match what {
        "next" => match r.next() {
            None => (vec![], "none"),
            Some(o) => (vec![Value::Object(dump::obj(&o))], "more"),
        },
        "sorted" => {
            r.assume_sorted();
            (vec![], "more")
        }
        "unsorted" => {
            r.assume_unsorted();
            (vec![], "more")
        }
        "objs" => pull(r.objects(), k, |o| dump::obj(&o)),
        "nodes" => pull(OSMReader::nodes(r), k, |o| dump::node(&o)),
        "ways" => pull(OSMReader::ways(r), k, |o| dump::way(&o)),
        "rels" => pull(OSMReader::relations(r), k, |o| dump::relation(&o)),
        _ => panic!("harness: unknown call {what}"),
    }
}

fn run_calls(calls: &Value, mut f: impl FnMut(&str, usize) -> (Vec<Value>, &'static str)) -> Value {
    let mut out = Vec::new();
    for c in calls.as_array().unwrap() {
        let what = c[0].as_str().unwrap();
        let k = if what == "next" {
            1
        } else {
            c[1].as_u64().map(|x| x as usize).unwrap_or(RUNAWAY)
        };
        // Items that were delivered before a panic count, so collect them one by one when draining
        if what == "drain" {
            let mut items = Vec::new();
            let mut end = "runaway";
            while items.len() < k {
                match guarded(|| f("next", 1)) {
                    Ok((mut i, "more")) => {
                        crate::io::log(|| json!("d"));
                        items.append(&mut i)
                    }
                    Ok((_, e)) => {
                        end = e;
                        break;
                    }
                    Err(p) => {
                        out.push(json!({"items": items, "end": "panic", "msg": p}));
                        return Value::Array(out);
                    }
                }
            }
            out.push(json!({"items": items, "end": end}));
            continue;
        }
        match guarded(|| f(what, k)) {
            Ok((items, end)) => out.push(json!({"items": items, "end": end})),
            Err(p) => {
                out.push(json!({"items": [], "end": "panic", "msg": p}));
                break;
            }
        }
    }
    Value::Array(out)
}

fn with_reader<T: OSMReader>(mut r: T, calls: &Value) -> Value {
    run_calls(calls, |w, k| call_generic(&mut r, w, k, false))
}

/// As with_reader, but with the inherent methods of the string PBF reader (with its own filter)
fn with_pbf<R: Read>(mut r: osmio::stringpbf::PBFReader<R>, calls: &Value) -> Value {
    run_calls(calls, |w, k| match w {
        "nodes" => pull(r.nodes(), k, |o| dump::node(&o)),
        "ways" => pull(r.ways(), k, |o| dump::way(&o)),
        "rels" => pull(r.relations(), k, |o| dump::relation(&o)),
        "tnodes" => call_generic(&mut r, "nodes", k, true),
        "tways" => call_generic(&mut r, "ways", k, true),
        "trels" => call_generic(&mut r, "rels", k, true),
        w => call_generic(&mut r, w, k, true),
    })
}

fn with_iter<X>(mut it: impl Iterator<Item = X>, calls: &Value, f: impl Fn(X) -> Value) -> Value {
    run_calls(calls, |_, k| {
        let mut items = Vec::new();
        while items.len() < k {
            match it.next() {
                None => return (items, "none"),
                Some(x) => items.push(f(x)),
            }
        }
        (items, "more")
    })
}

fn pos(x: (osmio::ObjId, (osmio::Lat, osmio::Lon))) -> Value {
    json!({"t": "p", "id": x.0, "ll": [x.1.0.inner(), x.1.1.inner()]})
}

/// Does the map that it gives out have its tags, and do changes of that show?
fn changeset_tags(mut c: osmio::changesets::Changeset, tags: &Value) -> bool {
    let key = "\u{1}another key";
    let n = c.num_tags();
    c.tags_mut().insert(key.to_string(), "x".to_string());
    let grown = c.tag(key) == Some("x") && c.has_tag(key) && c.num_tags() == n + 1 && c.tagged();
    let gone = c.tags_mut().remove(key).is_some() && !c.has_tag(key) && c.num_tags() == n && c.untagged() == (n == 0);
    let mut all: Vec<_> = c.into_tags().into_iter().collect();
    all.sort();
    grown && gone && json!(all) == *tags
}

fn cs<E: std::fmt::Display>(x: Result<osmio::changesets::Changeset, E>) -> Value {
    match x {
        Ok(c) => {
            let mut v = dump::changeset(&c);
            if !changeset_tags(c, &v["tags"]) {
                v["queries"] = json!(false);
            }
            json!({"ok": v})
        }
        Err(e) => json!({"err": e.to_string()}),
    }
}

fn cst<E: std::fmt::Display>(x: Result<(u64, Vec<(String, String)>), E>) -> Value {
    match x {
        Ok((id, tags)) => json!({"ok": {"id": id, "tags": tags}}),
        Err(e) => json!({"err": e.to_string()}),
    }
}

/// A PBF reader which can be exchanged for another one, of the same source
enum Chain {
    Pbf(osmio::stringpbf::PBFReader<Shared>),
    Arc(osmio::arcpbf::PBFReader<Shared>),
    Pos(PBFNodePositionReader<Shared>, Shared),
    None,
}

/// A source lent to a reader which does not give it back
#[derive(Clone)]
struct Shared(std::rc::Rc<std::cell::RefCell<Source>>);

impl std::io::Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(buf)
    }
}

impl Shared {
    fn pos(&self) -> usize {
        self.0.borrow().pos()
    }
}

fn chain(kind: &str, src: Shared) -> Chain {
    match kind {
        "pbf" => Chain::Pbf(osmio::stringpbf::PBFReader::new(src)),
        "arc" => Chain::Arc(osmio::arcpbf::PBFReader::new(src)),
        "pos" => Chain::Pos(PBFNodePositionReader::from_reader(src.clone()), src),
        _ => panic!("harness: no reader {kind}"),
    }
}

/// As with_pbf and with_reader, with two more calls: "at" (how far the source has been read, asked in two ways),
/// "over:<kind>" (take the source back, and go on with a reader of this kind).
fn with_chain(mut r: Chain, calls: &Value) -> Value {
    run_calls(calls, |w, k| {
        if let Some(kind) = w.strip_prefix("over:") {
            let src = match std::mem::replace(&mut r, Chain::None) {
                Chain::Pbf(r) => OSMReader::into_inner(r),
                Chain::Arc(r) => OSMReader::into_inner(r),
                Chain::Pos(_, src) => src,
                _ => panic!("harness: no source to take back"),
            };
            r = chain(kind, src);
            return (vec![], "more");
        }
        match (&mut r, w) {
            (Chain::Pbf(r), "at") => {
                let a = OSMReader::inner(r).pos();
                (vec![json!(a), json!(r.objects().inner().inner().pos())], "more")
            }
            (Chain::Arc(r), "at") => {
                let a = OSMReader::inner(r).pos();
                (vec![json!(a), json!(r.objects().inner().inner().pos())], "more")
            }
            (Chain::Pbf(r), "nodes") => pull(r.nodes(), k, |o| dump::node(&o)),
            (Chain::Pbf(r), "ways") => pull(r.ways(), k, |o| dump::way(&o)),
            (Chain::Pbf(r), "rels") => pull(r.relations(), k, |o| dump::relation(&o)),
            (Chain::Pbf(r), "tnodes") => call_generic(r, "nodes", k, true),
            (Chain::Pbf(r), "tways") => call_generic(r, "ways", k, true),
            (Chain::Pbf(r), "trels") => call_generic(r, "rels", k, true),
            (Chain::Pbf(r), w) => call_generic(r, w, k, true),
            (Chain::Arc(r), w) => call_generic(r, w, k, true),
            (Chain::Pos(r, _), "next") => match r.next() {
                None => (vec![], "none"),
                Some(x) => (vec![pos(x)], "more"),
            },
            (Chain::Pos(r, _), "nodes") => pull(r, k, |x| pos(x).as_object().unwrap().clone()),
            (Chain::Pos(_, src), "at") => (vec![json!(src.pos()), json!(src.pos())], "more"),
            _ => panic!("harness: no call {w}"),
        }
    })
}

pub fn run(case: &Value, ctx: &Ctx) -> Value {
    match guarded(|| run_inner(case, ctx)) {
        Ok(v) => v,
        // opening panicked
        Err(p) => json!({"open": "panic", "msg": p}),
    }
}

fn run_inner(case: &Value, ctx: &Ctx) -> Value {
    let data = unhex(case["data"].as_str().unwrap());
    let reader = case["reader"].as_str().unwrap();
    let calls = &case["calls"];
    let via = case["via"].as_str().unwrap_or("stream");
    if via == "file" {
        let dir = &ctx.scratch;
        let name = dir.join(format!("in-{}", std::process::id()));
        std::fs::write(&name, &data).unwrap();
        let name_s = name.to_str().unwrap().to_string();
        macro_rules! open {
            ($e:expr, $f:expr) => {
                match $e {
                    Ok(r) => json!({"calls": $f(r)}),
                    Err(e) => json!({"open": "err", "msg": e.to_string()}),
                }
            };
        }
        let v = match reader {
            "pbf" => open!(osmio::stringpbf::PBFReader::from_filename(&name), |r| with_pbf(r, calls)),
            "read_pbf" => open!(osmio::read_pbf(&name), |r| with_pbf(r, calls)),
            "arc" => open!(osmio::arcpbf::PBFReader::from_filename(&name), |r| with_reader(r, calls)),
            "pos" => open!(PBFNodePositionReader::from_filename(&name), |r| with_iter(r, calls, pos)),
            "xml" => open!(osmio::xml::from_filename_uncompressed(&name), |r| with_reader(r, calls)),
            "xml_bz2" => open!(osmio::xml::from_filename_bz2(&name), |r| with_reader(r, calls)),
            "read_xml" => open!(osmio::read_xml(&name), |r| with_reader(r, calls)),
            "cs" => open!(ChangesetReader::from_filename(&name_s), |r| with_iter(r, calls, cs)),
            "cst" => open!(ChangesetTagReader::from_filename(&name_s), |r| with_iter(r, calls, cst)),
            other => json!({"harness_error": format!("no file reader {other}")}),
        };
        std::fs::remove_file(&name).unwrap();
        return v;
    }
    let src = Source::new(data, &case["sched"]);
    let logged = case["sched"]["log"] == true;
    crate::io::LOG.with(|l| *l.borrow_mut() = if logged { Some(Vec::new()) } else { None });
    let v = match reader {
        "chain" => {
            let src = Shared(std::rc::Rc::new(std::cell::RefCell::new(src)));
            with_chain(chain(case["first"].as_str().unwrap(), src), calls)
        },
        "pbf" => with_pbf(osmio::stringpbf::PBFReader::new(src), calls),
        "arc" => with_reader(osmio::arcpbf::PBFReader::new(src), calls),
        "pos" => with_iter(PBFNodePositionReader::from_reader(src), calls, pos),
        "xml" => with_reader(osmio::xml::XMLReader::new(src), calls),
        "osc" => with_reader(osmio::osc::OSCReader::new(src), calls),
        "cs" => with_iter(ChangesetReader::new(src), calls, cs),
        // by hand, not as an iterator
        "csn" => {
            let mut r = ChangesetReader::from_reader(src);
            with_iter(std::iter::from_fn(|| r.next_changeset().transpose()), calls, cs)
        }
        "cs_bz2" => with_iter(ChangesetReader::from_bz2_reader(src), calls, cs),
        "xml_bz2" => with_reader(
            osmio::xml::XMLReader::new(bzip2::read::MultiBzDecoder::new(src)),
            calls,
        ),
        "osc_bz2" => with_reader(
            osmio::osc::OSCReader::new(bzip2::read::MultiBzDecoder::new(src)),
            calls,
        ),
        other => return json!({"harness_error": format!("no reader {other}")}),
    };
    if let Some(log) = crate::io::LOG.with(|l| l.borrow_mut().take()) {
        return json!({"calls": v, "log": log});
    }
    json!({"calls": v})
}
