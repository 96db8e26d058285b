//! Sources and sinks with a schedule and with faults.
use serde_json::Value;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    b.chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

fn kind(s: &str) -> ErrorKind {
    match s {
        "broken" => ErrorKind::BrokenPipe,
        "timeout" => ErrorKind::TimedOut,
        "invalid" => ErrorKind::InvalidData,
        "denied" => ErrorKind::PermissionDenied,
        "full" => ErrorKind::StorageFull,
        "block" => ErrorKind::WouldBlock,
        "interrupted" => ErrorKind::Interrupted,
        _ => ErrorKind::Other,
    }
}

thread_local! {
    /// What a source was asked for and gave ([asked, given]; given -1: interrupted), and "d" for each object delivered
    pub static LOG: RefCell<Option<Vec<Value>>> = const { RefCell::new(None) };
}

pub fn log(v: impl FnOnce() -> Value) {
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(v());
        }
    });
}

/// Delivers `data` in the chunks of the schedule, with interruptions, up to a failure.
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    calls: usize,
    chunks: Vec<usize>,
    intr: Vec<usize>,
    /// one number for each call, 0 being an interruption; then as asked for
    script: Vec<usize>,
    fail_at: Option<usize>,
    fail_kind: ErrorKind,
    fail_once: bool,
}

impl Source {
    pub fn new(data: Vec<u8>, sched: &Value) -> Source {
        let list = |v: &Value| -> Vec<usize> {
            v.as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .unwrap_or_default()
        };
        Source {
            data,
            pos: 0,
            calls: 0,
            chunks: list(&sched["chunks"]),
            intr: list(&sched["intr"]),
            script: list(&sched["script"]),
            fail_at: sched["fail_at"].as_u64().map(|x| x as usize),
            fail_kind: kind(sched["kind"].as_str().unwrap_or("other")),
            fail_once: sched["once"].as_bool().unwrap_or(false),
        }
    }
}

impl Source {
    /// How much has been read
    pub fn pos(&self) -> usize {
        self.pos
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if self.intr.contains(&call) || (self.intr.len() == 1 && self.intr[0] == 99999 && call % 2 == 0) {
            log(|| serde_json::json!([buf.len(), -1]));
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.script.get(call) == Some(&0) {
            log(|| serde_json::json!([buf.len(), -1]));
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f && !buf.is_empty() {
                if self.fail_once {
                    self.fail_at = None;
                }
                return Err(Error::new(self.fail_kind, "injected"));
            }
            end = end.min(f);
        }
        let mut n = buf.len().min(end - self.pos);
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[call % self.chunks.len()].max(1));
        }
        if let Some(&s) = self.script.get(call) {
            n = n.min(s);
        }
        log(|| serde_json::json!([buf.len(), n]));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub writes: usize,
    pub failures: usize,
    /// number of bytes accepted when the first failure was reported
    pub at_failure: Option<usize>,
    pub flushes: usize,
}

/// Accepts bytes, up to a failure.
pub struct Sink {
    pub state: Rc<RefCell<SinkState>>,
    chunk: usize,
    intr: Vec<usize>,
    /// Fail when this many bytes have been accepted
    fail_at: Option<usize>,
    fail_how: String,
    permanent: bool,
    flush_fails: bool,
}

impl Sink {
    pub fn new(v: &Value) -> Sink {
        Sink {
            state: Rc::new(RefCell::new(SinkState::default())),
            chunk: v["chunk"].as_u64().unwrap_or(0) as usize,
            intr: v["intr"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .unwrap_or_default(),
            fail_at: v["fail_at"].as_u64().map(|x| x as usize),
            fail_how: v["how"].as_str().unwrap_or("other").to_string(),
            permanent: v["permanent"].as_bool().unwrap_or(true),
            flush_fails: v["flush_fails"].as_bool().unwrap_or(false),
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut st = self.state.borrow_mut();
        let call = st.writes;
        st.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.intr.contains(&call) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if let Some(f) = self.fail_at {
            if self.permanent || st.failures == 0 {
                if st.bytes.len() >= f {
                    st.failures += 1;
                    if st.at_failure.is_none() {
                        st.at_failure = Some(st.bytes.len());
                    }
                    if self.fail_how == "zero" {
                        return Ok(0);
                    }
                    return Err(Error::new(kind(&self.fail_how), "injected"));
                }
                n = n.min(f - st.bytes.len());
            }
        }
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        st.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut st = self.state.borrow_mut();
        st.flushes += 1;
        if self.flush_fails {
            st.failures += 1;
            if st.at_failure.is_none() {
                st.at_failure = Some(st.bytes.len());
            }
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        Ok(())
    }
}
