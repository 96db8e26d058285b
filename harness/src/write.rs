//! Runs a history of calls on a writer, over a sink with faults.
use crate::io::{Sink, hex};
use crate::{Ctx, edit, guarded};
use osmio::obj_types::StringOSMObj;
use osmio::{OSMReader, OSMWriteError, OSMWriter};
use serde_json::{Value, json};

fn res(r: Result<(), OSMWriteError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(OSMWriteError::FormatDoesntSupportHeaders) => "unsupported",
        Err(OSMWriteError::AlreadyStarted) => "started",
        Err(OSMWriteError::AlreadyClosed) => "closed",
        Err(_) => "io",
    }
}

enum AnyObj {
    S(StringOSMObj),
    A(osmio::obj_types::ArcOSMObj),
    #[cfg(osmio_verif)]
    R(osmio::obj_types::RcOSMObj),
}

fn build(d: &Value) -> AnyObj {
    let t = d["t"].as_str().unwrap();
    match d["repr"].as_str().unwrap_or("string") {
        // as the PBF readers make them
        "read_string" => {
            let data = crate::io::unhex(d["seed"].as_str().unwrap());
            let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(data));
            AnyObj::S(r.next().expect("harness: no object in the seed"))
        }
        "read_arc" => AnyObj::A(edit::new_arc(&d["seed"])),
        "arc" => {
            let mut o = edit::new_arc(&d["seed"]);
            edit::fill(&mut o, d);
            AnyObj::A(o)
        }
        #[cfg(osmio_verif)]
        "rc" => {
            let mut o = edit::new_rc(t);
            edit::fill(&mut o, d);
            AnyObj::R(o)
        }
        _ => {
            let mut o = edit::new_string(t);
            edit::fill(&mut o, d);
            AnyObj::S(o)
        }
    }
}

fn with_writer<W: OSMWriter<Sink>>(case: &Value) -> Value {
    let sink = Sink::new(&case["sink"]);
    let state = sink.state.clone();
    let mut w: Option<W> = None;
    let mut sink = Some(sink);
    if case["lazy"].is_null() {
        w = Some(W::new(sink.take().unwrap()));
    }
    let mut out = Vec::new();
    for c in case["calls"].as_array().unwrap() {
        let what = c[0].as_str().unwrap();
        let o = if what == "obj" { Some(build(&c[1])) } else { None };
        let r = guarded(|| -> &'static str {
            match what {
                "hdr" => res(w
                    .as_mut()
                    .unwrap()
                    .set_header((c[1].as_str().unwrap(), c[2].as_str().unwrap()))),
                "obj" => match o.as_ref().unwrap() {
                    AnyObj::S(o) => res(w.as_mut().unwrap().write_obj(o)),
                    AnyObj::A(o) => res(w.as_mut().unwrap().write_obj(o)),
                    #[cfg(osmio_verif)]
                    AnyObj::R(o) => res(w.as_mut().unwrap().write_obj(o)),
                },
                "close" => res(w.as_mut().unwrap().close()),
                "drop" => {
                    drop(w.take());
                    "ok"
                }
                "from_iter" => {
                    let objs: Vec<StringOSMObj> = c[1]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|d| match build(d) {
                            AnyObj::S(o) => o,
                            _ => panic!("harness: string objects only"),
                        })
                        .collect();
                    w = Some(W::from_iter(sink.take().unwrap(), objs.into_iter()));
                    "ok"
                }
                _ => panic!("harness: unknown call {what}"),
            }
        });
        let st = state.borrow();
        let (open, pan) = match &r {
            Ok(_) => (w.as_ref().map(|w| w.is_open()), Value::Null),
            Err(p) => (None, json!(p)),
        };
        out.push(json!({
            "r": r.as_ref().map(|s| s.to_string()).unwrap_or("panic".into()),
            "open": open, "bytes": st.bytes.len(), "failures": st.failures, "writes": st.writes,
            "msg": pan,
        }));
        if r.is_err() {
            break;
        }
    }
    // whatever is left: dropped here
    let dropped = match guarded(|| drop(w.take())) {
        Ok(()) => "ok",
        Err(_) => "panic",
    };
    let st = state.borrow();
    json!({"calls": out, "drop": dropped, "doc": hex(&st.bytes), "writes": st.writes,
           "failures": st.failures, "at_failure": st.at_failure})
}

pub fn run(case: &Value, _ctx: &Ctx) -> Value {
    match case["writer"].as_str().unwrap() {
        "xml" => with_writer::<osmio::xml::XMLWriter<Sink>>(case),
        "osc" => with_writer::<osmio::osc::OSCWriter<Sink>>(case),
        other => json!({"harness_error": format!("no writer {other}")}),
    }
}
