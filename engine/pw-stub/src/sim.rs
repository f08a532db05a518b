//! The simulated Envoy host: per-stream state, gRPC tokens, fault injection and the
//! ordered log of everything the filter asked the host to do.
use crate::types::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::time::Duration;

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    GetProperty,
    SetProperty,
    GetMap,
    GetMapValue,
    SetMap,
    GetBuffer,
    Dispatch,
    SendReply,
    Resume,
    DefineMetric,
    Metric,
    TickPeriod,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub upstream: String,
    pub service: String,
    pub method: String,
    pub metadata: Vec<(String, Vec<u8>)>,
    pub message: Vec<u8>,
    pub timeout: Duration,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter(&'static str),
    Exit(&'static str, Option<Action>),
    Panic(String),
    Dispatch(u32, Call),
    DispatchRefused(Call, Status),
    GrpcReply { token: u32, status: u32, size: usize },
    Cancel(u32),
    Reply { status: u32, headers: Headers, body: Option<Vec<u8>> },
    ReplyRefused,
    ResumeRequest,
    ResumeResponse,
    SetMap(MapType, Headers),
    SetMapRefused(MapType),
    SetProp(Vec<String>, Vec<u8>),
    SetPropRefused(Vec<String>),
    ReadProp(Vec<String>, bool),
    ReadMap(MapType),
    ReadMapValue(MapType, String),
    ReadBuffer(BufferType, usize, usize, usize),
    Metric(String, i64),
    TickPeriod(Duration),
    Log(LogLevel, String),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub ctx: u32,
    pub ev: Ev,
}

#[derive(Default, Clone)]
pub struct Stream {
    pub props: BTreeMap<Vec<String>, Vec<u8>>,
    pub written: BTreeMap<Vec<String>, Vec<u8>>,
    pub req_headers: Option<Headers>,
    pub resp_headers: Option<Headers>,
    pub req_buf: Option<Vec<u8>>,
    pub resp_buf: Option<Vec<u8>>,
    pub replied: bool,
    pub resume_req: u32,
    pub resume_resp: u32,
}

pub struct Token {
    pub ctx: u32,
    pub call: Call,
}

pub type FaultFn = Box<dyn FnMut(u32, Kind, &str) -> Option<Status>>;

pub struct Host {
    pub events: Vec<Rec>,
    pub active: u32,
    pub streams: BTreeMap<u32, Stream>,
    pub tokens: BTreeMap<u32, Token>,
    pub next_token: u32,
    pub grpc_buffer: Option<Vec<u8>>,
    pub metrics: Vec<(String, i64)>,
    pub log_level: LogLevel,
    pub keep_logs: bool,
    pub keep_reads: bool,
    pub plugin_config: Option<Vec<u8>>,
    pub tick_period: Option<Duration>,
    pub faults: Option<FaultFn>,
}

impl Host {
    fn new() -> Self {
        Host {
            events: vec![],
            active: 0,
            streams: BTreeMap::new(),
            tokens: BTreeMap::new(),
            next_token: 1,
            grpc_buffer: None,
            metrics: vec![],
            log_level: LogLevel::Warn,
            keep_logs: false,
            keep_reads: false,
            plugin_config: None,
            tick_period: None,
            faults: None,
        }
    }
    /// Forget streams, tokens, events and faults; metric ids live for the whole process
    /// because the module caches them.
    pub fn reset(&mut self) {
        self.events.clear();
        self.active = 0;
        self.streams.clear();
        self.tokens.clear();
        self.next_token = 1;
        self.grpc_buffer = None;
        self.plugin_config = None;
        self.tick_period = None;
        self.faults = None;
        self.log_level = LogLevel::Warn;
        self.keep_logs = false;
        self.keep_reads = false;
    }
    pub fn push(&mut self, ev: Ev) {
        let ctx = self.active;
        self.events.push(Rec { ctx, ev });
    }
    pub fn fault(&mut self, k: Kind, what: &str) -> Result<(), Status> {
        if let Some(f) = self.faults.as_mut() {
            if let Some(s) = f(self.active, k, what) {
                return Err(s);
            }
        }
        Ok(())
    }
    pub fn log(&mut self, level: LogLevel, msg: &str) {
        if self.keep_logs {
            self.push(Ev::Log(level, msg.to_string()));
        }
    }
    fn stream(&mut self) -> Option<&mut Stream> {
        self.streams.get_mut(&self.active)
    }
    pub fn peek_map(&mut self, t: MapType) -> Option<Headers> {
        let s = self.stream()?;
        match t {
            MapType::HttpRequestHeaders => s.req_headers.clone(),
            MapType::HttpResponseHeaders => s.resp_headers.clone(),
            _ => None,
        }
    }
    pub fn get_map(&mut self, t: MapType) -> Result<Headers, Status> {
        if self.keep_reads {
            self.push(Ev::ReadMap(t));
        }
        self.fault(Kind::GetMap, &format!("{t:?}"))?;
        Ok(self.peek_map(t).unwrap_or_default())
    }
    pub fn get_map_value(&mut self, t: MapType, key: &str) -> Result<Option<String>, Status> {
        if self.keep_reads {
            self.push(Ev::ReadMapValue(t, key.to_string()));
        }
        self.fault(Kind::GetMapValue, key)?;
        let m = self.peek_map(t).ok_or(Status::BadArgument)?;
        Ok(m.iter().find(|(k, _)| k.eq_ignore_ascii_case(key)).map(|(_, v)| v.clone()))
    }
    pub fn set_map(&mut self, t: MapType, m: Headers) -> Result<(), Status> {
        if self.fault(Kind::SetMap, &format!("{t:?}")).is_err() {
            self.push(Ev::SetMapRefused(t));
            return Err(Status::InternalFailure);
        }
        let ok = match self.stream() {
            Some(s) => {
                let slot = match t {
                    MapType::HttpRequestHeaders => &mut s.req_headers,
                    MapType::HttpResponseHeaders => &mut s.resp_headers,
                    _ => return Err(Status::BadArgument),
                };
                if slot.is_some() {
                    *slot = Some(m.clone());
                    true
                } else {
                    false
                }
            }
            None => false,
        };
        if ok {
            self.push(Ev::SetMap(t, m));
            Ok(())
        } else {
            self.push(Ev::SetMapRefused(t));
            Err(Status::BadArgument)
        }
    }
    pub fn get_property(&mut self, path: &[&str]) -> Result<Option<Bytes>, Status> {
        let key: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        self.fault(Kind::GetProperty, &key.join("."))?;
        let v = self.stream().and_then(|s| s.props.get(&key).cloned());
        if self.keep_reads {
            self.push(Ev::ReadProp(key, v.is_some()));
        }
        Ok(v)
    }
    pub fn set_property(&mut self, path: &[&str], value: Option<&[u8]>) -> Result<(), Status> {
        let key: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        if let Err(e) = self.fault(Kind::SetProperty, &key.join(".")) {
            self.push(Ev::SetPropRefused(key));
            return Err(e);
        }
        let v = value.unwrap_or_default().to_vec();
        if let Some(s) = self.stream() {
            s.written.insert(key.clone(), v.clone());
        }
        self.push(Ev::SetProp(key, v));
        Ok(())
    }
    pub fn get_buffer(&mut self, t: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
        self.fault(Kind::GetBuffer, &format!("{t:?}"))?;
        let buf = match t {
            BufferType::HttpRequestBody => self.streams.get(&self.active).and_then(|s| s.req_buf.as_ref()),
            BufferType::HttpResponseBody => self.streams.get(&self.active).and_then(|s| s.resp_buf.as_ref()),
            BufferType::GrpcReceiveBuffer => self.grpc_buffer.as_ref(),
            BufferType::PluginConfiguration => {
                return Ok(self.plugin_config.clone());
            }
            _ => None,
        };
        let Some(b) = buf else {
            return Err(Status::BadArgument);
        };
        // Envoy: start beyond the end, or overflow of start+max, is a bad argument.
        if start > b.len() || start.checked_add(max).is_none() && start != 0 {
            return Err(Status::BadArgument);
        }
        let end = start.saturating_add(max).min(b.len());
        let part = (start < end).then(|| b[start..end].to_vec());
        if self.keep_reads {
            self.push(Ev::ReadBuffer(t, start, max, end - start));
        }
        Ok(part)
    }
    pub fn metric_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.metrics.iter().position(|(n, _)| n == name) {
            return i as u32;
        }
        self.metrics.push((name.to_string(), 0));
        (self.metrics.len() - 1) as u32
    }
    pub fn metric_inc(&mut self, id: u32, off: i64) -> Result<(), Status> {
        let Some(m) = self.metrics.get_mut(id as usize) else {
            return Err(Status::NotFound);
        };
        m.1 += off;
        let n = m.0.clone();
        self.push(Ev::Metric(n, off));
        Ok(())
    }
    pub fn dispatch(
        &mut self,
        upstream: &str,
        service: &str,
        method: &str,
        metadata: Vec<(&str, &[u8])>,
        message: Option<&[u8]>,
        timeout: Duration,
    ) -> Result<u32, Status> {
        let call = Call {
            upstream: upstream.to_string(),
            service: service.to_string(),
            method: method.to_string(),
            metadata: metadata.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect(),
            message: message.unwrap_or_default().to_vec(),
            timeout,
        };
        if let Err(e) = self.fault(Kind::Dispatch, upstream) {
            self.push(Ev::DispatchRefused(call, e));
            return Err(e);
        }
        let token = self.next_token;
        self.next_token += 1;
        let ctx = self.active;
        self.tokens.insert(token, Token { ctx, call: call.clone() });
        self.push(Ev::Dispatch(token, call));
        Ok(token)
    }
    pub fn send_reply(&mut self, status: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status> {
        if let Err(e) = self.fault(Kind::SendReply, "") {
            self.push(Ev::ReplyRefused);
            return Err(e);
        }
        if let Some(s) = self.stream() {
            s.replied = true;
        }
        self.push(Ev::Reply {
            status,
            headers: headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            body: body.map(|b| b.to_vec()),
        });
        Ok(())
    }
    pub fn resume(&mut self, response: bool) {
        if let Some(s) = self.stream() {
            if response {
                s.resume_resp += 1;
            } else {
                s.resume_req += 1;
            }
        }
        self.push(if response { Ev::ResumeResponse } else { Ev::ResumeRequest });
    }
}

thread_local! {
    static HOST: RefCell<Host> = RefCell::new(Host::new());
}

thread_local! {
    /// Whether it is the module that runs, and owns what is allocated now.
    pub static MODULE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Who runs until this is dropped.
pub struct Running(bool);

impl Running {
    pub fn new(module: bool) -> Self {
        Running(MODULE.with(|m| m.replace(module)))
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        MODULE.with(|m| m.set(self.0));
    }
}

pub fn with<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    let _host = Running::new(false);
    HOST.with(|h| f(&mut h.borrow_mut()))
}
