//! A host for the filter (the trait the proxy implements) that records everything the filter asks
//! of it, and a driver that plays the proxy's callbacks the way crates/wasm-shim does.
use crate::sym;
#[cfg(not(feature = "module"))]
use kuadrant_filter::configuration::PluginConfiguration;
use kuadrant_filter::data::attribute::*;
use kuadrant_filter::filter::*;
use kuadrant_filter::kuadrant::resolver::*;
use kuadrant_filter::kuadrant::*;
use kuadrant_filter::services::ServiceError;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Call { token: u32, upstream: String, service: String, method: String, headers: Vec<(String, Vec<u8>)>, msg: Vec<u8>, timeout_ms: u64 },
    Reply { status: u32, headers: Vec<(String, String)>, body: Option<Vec<u8>> },
    SetAttr { path: Vec<String>, value: Vec<u8> },
    SetMap { request: bool, value: Vec<(String, String)> },
}
#[derive(Clone)]
pub enum A {
    V(Vec<u8>),
    None,
    Pending,
    Err,
}
pub struct St {
    pub next: u32,
    pub ev: Vec<Ev>,
    pub attrs: Vec<(String, A)>,
    pub req_headers: Vec<(String, String)>,
    pub resp_headers: Option<Vec<(String, String)>>,
    pub req_body: Vec<u8>,
    pub resp_body: Vec<u8>,
    pub grpc: Vec<u8>,
    /// dispatches to these upstreams fail
    pub fail_dispatch: Vec<String>,
    pub fail_reply: bool,
    pub fail_set_map: bool,
    pub fail_set_attr: bool,
    pub fail_grpc_read: bool,
    pub reads: u32,
    pub log: bool,
    // the rest is used by module.rs
    pub plugin_config: Vec<u8>,
    pub counted: Vec<(String, i64)>,
    pub resumes: Vec<bool>,
    pub ticks: Vec<u64>,
}
pub struct Host {
    pub st: Mutex<St>,
}
fn s(x: &str) -> String {
    x.to_string()
}
impl Host {
    pub fn new() -> Arc<Host> {
        let v = |x: &str| A::V(x.as_bytes().to_vec());
        let n = |x: i64| A::V(x.to_le_bytes().to_vec());
        Arc::new(Host {
            st: Mutex::new(St {
                next: 0,
                ev: vec![],
                attrs: vec![
                    (s("request.id"), v("rid")),
                    (s("request.time"), n(1_700_000_000_000_000_005)),
                    (s("request.protocol"), v("HTTP/1.1")),
                    (s("request.scheme"), v("http")),
                    (s("request.host"), v("example.com")),
                    (s("request.method"), v("GET")),
                    (s("request.path"), v("/a/b?x=1")),
                    (s("request.url_path"), v("/a/b")),
                    (s("request.query"), v("x=1")),
                    (s("request.size"), n(0)),
                    (s("source.address"), v("10.0.0.1:4444")),
                    (s("source.port"), n(4444)),
                    (s("destination.address"), v("10.0.0.2:80")),
                    (s("destination.port"), n(80)),
                ],
                req_headers: vec![(s("x-request-id"), s("id-1"))],
                resp_headers: None,
                req_body: vec![],
                resp_body: vec![],
                grpc: vec![],
                fail_dispatch: vec![],
                fail_reply: false,
                fail_set_map: false,
                fail_set_attr: false,
                fail_grpc_read: false,
                reads: 0,
                log: true,
                plugin_config: vec![],
                counted: vec![],
                resumes: vec![],
                ticks: vec![],
            }),
        })
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut St) -> T) -> T {
        f(&mut self.st.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn set(&self, path: &str, a: A) {
        self.with(|s| {
            s.attrs.retain(|x| x.0 != path);
            s.attrs.push((path.to_string(), a));
        })
    }
    pub fn setv(&self, path: &str, v: &[u8]) {
        self.set(path, A::V(v.to_vec()))
    }
    pub fn events(&self) -> Vec<Ev> {
        self.with(|s| s.ev.clone())
    }
    pub fn replies(&self) -> Vec<(u32, Vec<(String, String)>, Option<Vec<u8>>)> {
        self.events()
            .into_iter()
            .filter_map(|e| match e {
                Ev::Reply { status, headers, body } => Some((status, headers, body)),
                _ => None,
            })
            .collect()
    }
    pub fn n_replies(&self) -> usize {
        self.with(|s| s.ev.iter().filter(|e| matches!(e, Ev::Reply { .. })).count())
    }
    /// (token, upstream) of every dispatched call, in order
    pub fn calls(&self) -> Vec<(u32, String)> {
        self.with(|s| {
            s.ev.iter()
                .filter_map(|e| match e {
                    Ev::Call { token, upstream, .. } => Some((*token, upstream.clone())),
                    _ => None,
                })
                .collect()
        })
    }
    pub fn call_msg(&self, upstream: &str) -> Option<Vec<u8>> {
        self.with(|s| {
            s.ev.iter().find_map(|e| match e {
                Ev::Call { upstream: u, msg, .. } if u == upstream => Some(msg.clone()),
                _ => None,
            })
        })
    }
    pub fn token_of(&self, upstream: &str) -> Option<u32> {
        self.calls().iter().find(|c| c.1 == upstream).map(|c| c.0)
    }
    /// What the module counted under a name.
    pub fn counted(&self, name: &str) -> i64 {
        self.with(|s| s.counted.iter().filter(|c| c.0 == name).map(|c| c.1).sum())
    }
    pub fn lookup(&self, t: &[&str]) -> A {
        self.with(|s| {
            s.reads += 1;
            for (k, a) in &s.attrs {
                // attribute names in the table use '/' between tokens when a token holds a dot
                let want: Vec<&str> = if k.contains('/') { k.split('/').collect() } else { k.split('.').collect() };
                if want == t {
                    return a.clone();
                }
            }
            A::None
        })
    }
    /// A call to a service; None when it cannot be made.
    pub fn call(&self, u: &str, service: &str, method: &str, h: Vec<(&str, &[u8])>, msg: Vec<u8>, t: Duration) -> Option<u32> {
        if self.with(|s| s.fail_dispatch.iter().any(|f| f == u)) {
            return None;
        }
        let token = self.with(|s| {
            s.next += 1;
            s.next
        });
        self.record(Ev::Call {
            token,
            upstream: u.to_string(),
            service: service.to_string(),
            method: method.to_string(),
            headers: h.into_iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect(),
            msg,
            timeout_ms: t.as_millis() as u64,
        });
        Some(token)
    }
    pub fn record(&self, e: Ev) {
        self.with(|s| {
            if s.log {
                match &e {
                    Ev::Call { token, upstream, service, method, headers, msg, timeout_ms } => {
                        sym::out(b"C");
                        sym::outn(*token as i64);
                        sym::outs(upstream);
                        sym::outs(service);
                        sym::outs(method);
                        sym::outn(*timeout_ms as i64);
                        for h in headers {
                            sym::outs(&h.0);
                            sym::out(&h.1);
                        }
                        sym::outn(msg.len() as i64);
                        sym::out(msg);
                    }
                    Ev::Reply { status, headers, body } => {
                        sym::out(b"R");
                        sym::outn(*status as i64);
                        for h in headers {
                            sym::outs(&h.0);
                            sym::outs(&h.1);
                        }
                        sym::out(body.as_deref().unwrap_or(b"-"));
                    }
                    Ev::SetAttr { path, value } => {
                        sym::out(b"A");
                        for t in path {
                            sym::outs(t);
                        }
                        sym::out(value);
                    }
                    Ev::SetMap { request, value } => {
                        sym::out(if *request { b"Q" } else { b"P" });
                        for h in value {
                            sym::outs(&h.0);
                            sym::outs(&h.1);
                        }
                    }
                }
            }
            s.ev.push(e);
        })
    }
}
pub fn own(v: Vec<(&str, &str)>) -> Vec<(String, String)> {
    v.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
pub fn body(b: &[u8], start: usize, max: usize) -> Option<Vec<u8>> {
    // a host returns nothing when the requested start is past the buffer
    if start > b.len() || b.is_empty() {
        return None;
    }
    let end = start.saturating_add(max).min(b.len());
    Some(b[start..end].to_vec())
}
impl AttributeResolver for Host {
    fn get_attribute(&self, path: &Path) -> Result<Option<Vec<u8>>, AttributeError> {
        match self.lookup(&path.tokens()) {
            A::V(b) => Ok(Some(b)),
            A::None => Ok(None),
            A::Pending => Err(AttributeError::NotAvailable(String::new())),
            A::Err => Err(AttributeError::Retrieval(String::new())),
        }
    }
    fn get_attribute_map(&self, m: MapType) -> Result<Vec<(String, String)>, AttributeError> {
        self.with(|s| match m {
            MapType::HttpRequestHeaders => Ok(s.req_headers.clone()),
            MapType::HttpResponseHeaders => s.resp_headers.clone().ok_or(AttributeError::NotAvailable(String::new())),
        })
    }
    fn get_attribute_map_value(&self, m: MapType, key: &str) -> Result<Option<String>, AttributeError> {
        Ok(self.get_attribute_map(m)?.into_iter().find(|h| h.0 == key).map(|h| h.1))
    }
    fn set_attribute(&self, path: &Path, value: &[u8]) -> Result<(), AttributeError> {
        if self.with(|s| s.fail_set_attr) {
            return Err(AttributeError::Set(String::new()));
        }
        let p: Vec<String> = path.tokens().iter().map(|t| t.to_string()).collect();
        self.record(Ev::SetAttr { path: p, value: value.to_vec() });
        Ok(())
    }
    fn set_attribute_map(&self, m: MapType, value: Vec<(&str, &str)>) -> Result<(), AttributeError> {
        if self.with(|s| s.fail_set_map) {
            return Err(AttributeError::Set(String::new()));
        }
        let v = own(value);
        let request = m == MapType::HttpRequestHeaders;
        self.with(|s| if request { s.req_headers = v.clone() } else { s.resp_headers = Some(v.clone()) });
        self.record(Ev::SetMap { request, value: v });
        Ok(())
    }
    fn get_http_request_body(&self, st: usize, max: usize) -> Result<Option<Vec<u8>>, AttributeError> {
        Ok(self.with(|s| body(&s.req_body, st, max)))
    }
    fn get_http_response_body(&self, st: usize, max: usize) -> Result<Option<Vec<u8>>, AttributeError> {
        Ok(self.with(|s| body(&s.resp_body, st, max)))
    }
    fn dispatch_grpc_call(&self, u: &str, service: &str, method: &str, h: Vec<(&str, &[u8])>, msg: Vec<u8>, t: Duration) -> Result<u32, ServiceError> {
        self.call(u, service, method, h, msg, t).ok_or(ServiceError::Dispatch(String::new()))
    }
    fn get_grpc_response(&self, n: usize) -> Result<Vec<u8>, ServiceError> {
        if self.with(|s| s.fail_grpc_read) {
            return Err(ServiceError::Retrieval(String::new()));
        }
        Ok(self.with(|s| s.grpc[..n.min(s.grpc.len())].to_vec()))
    }
    fn send_http_reply(&self, status: u32, h: Vec<(&str, &str)>, b: Option<&[u8]>) -> Result<(), ServiceError> {
        if self.with(|s| s.fail_reply) {
            return Err(ServiceError::Dispatch(String::new()));
        }
        self.record(Ev::Reply { status, headers: own(h), body: b.map(|b| b.to_vec()) });
        Ok(())
    }
}

/// Never dropped: taking the protobuf descriptors down on every path costs more than the path.
pub fn factory(json: &str) -> &'static PipelineFactory {
    factory_and_descriptors(json).0
}
/// Fills the parser's tables before the paths part.
fn warm() {
    for e in [r"DenyResponse { status: 500u, headers: [], body: 'Internal Server Error.\n' }", "[['a', 'id-1']]", "true"] {
        let _ = kuadrant_filter::data::Expression::new(e);
    }
}
#[cfg(feature = "module")]
pub fn factory_and_descriptors(json: &str) -> (&'static PipelineFactory, &'static Arc<DescriptorManager>) {
    warm();
    crate::module::factory_and_descriptors(json)
}
#[cfg(not(feature = "module"))]
pub fn factory_and_descriptors(json: &str) -> (&'static PipelineFactory, &'static Arc<DescriptorManager>) {
    let cfg: PluginConfiguration = match serde_json::from_str(json) {
        Ok(c) => c,
        Err(e) => panic!("config: {e}"),
    };
    warm();
    let dm: &'static Arc<DescriptorManager> = Box::leak(Box::new(Arc::new(DescriptorManager::default())));
    match PipelineFactory::try_from(cfg, dm) {
        Ok(f) => (Box::leak(Box::new(f)), dm),
        Err(e) => panic!("{e}"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phase {
    Request,
    Response,
}
/// What the proxy does with the stream.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flow {
    /// the request (response) was handed on
    Go,
    /// the stream is held until a resume
    Held,
    /// the filter answered the request itself: it does not go on
    Answered,
}
#[cfg(feature = "module")]
pub use crate::module::Proxy;
/// The callbacks of crates/wasm-shim/src/filter/kuadrant_filter.rs, over the same pipeline API.
#[cfg(not(feature = "module"))]
pub struct Proxy {
    pub host: Arc<Host>,
    pub p: Option<Pipeline>,
    pub phase: Phase,
    pub built: Result<bool, ()>,
    pub flow: Flow,
    force_resume: bool,
    seen: usize,
}
#[cfg(not(feature = "module"))]
impl Proxy {
    pub fn request(f: &PipelineFactory, host: &Arc<Host>) -> Proxy {
        let mut x = Proxy { host: host.clone(), p: None, phase: Phase::Request, built: Ok(false), flow: Flow::Go, force_resume: false, seen: 0 };
        match f.build(ReqRespCtx::new(host.clone())) {
            Ok(Some(p)) => {
                x.built = Ok(true);
                x.p = Some(p);
            }
            Ok(None) => {}
            Err(_) => {
                x.built = Err(());
                let _ = host.send_http_reply(500, vec![], Some(b"Internal Server Error.\n"));
            }
        }
        x
    }
    fn step(&mut self, s: PipelineState) -> Option<bool> {
        match s {
            PipelineState::InProgress(p) => {
                self.p = Some(*p);
                None
            }
            PipelineState::Completed { should_resume } => {
                self.p = None;
                Some(should_resume)
            }
        }
    }
    fn eval(&mut self) {
        if let Some(p) = self.p.take() {
            let s = p.eval();
            self.step(s);
        }
    }
    pub fn paused(&self) -> bool {
        self.p.as_ref().is_some_and(|p| p.requires_pause())
    }
    fn after(&mut self) {
        // the proxy does not go on with a stream that was answered during the callback
        self.flow = if self.host.n_replies() > self.seen {
            Flow::Answered
        } else if self.flow == Flow::Answered {
            Flow::Answered
        } else if self.paused() {
            Flow::Held
        } else {
            Flow::Go
        };
        self.seen = self.host.n_replies();
    }
    /// on_http_request_headers after the pipeline is built
    pub fn headers(&mut self) {
        self.eval();
        self.after();
    }
    pub fn start(f: &PipelineFactory, host: &Arc<Host>) -> Proxy {
        let mut x = Proxy::request(f, host);
        x.headers();
        x
    }
    /// A request that ends with its headers.
    pub fn start_bodyless(f: &PipelineFactory, host: &Arc<Host>) -> Proxy {
        let mut x = Proxy::request(f, host);
        if let Some(p) = x.p.as_mut() {
            p.ctx.request_body.set_buffer_size(0, true);
        }
        x.headers();
        x
    }
    /// a chunk of the request body: the host adds it to what it holds
    pub fn request_body(&mut self, chunk: &[u8], end: bool) {
        let size = self.host.with(|s| {
            s.req_body.extend_from_slice(chunk);
            s.req_body.len()
        });
        if let Some(p) = self.p.as_mut() {
            p.ctx.request_body.set_buffer_size(size, end);
        }
        self.eval();
        self.after();
        self.hand_on();
    }
    /// A body that is not held goes on: the host's buffer is empty again.
    fn hand_on(&mut self) {
        if self.flow == Flow::Go {
            self.host.with(|s| if self.phase == Phase::Request { s.req_body.clear() } else { s.resp_body.clear() });
        }
    }
    pub fn response_headers(&mut self) {
        self.response(false)
    }
    /// A response that ends with its headers.
    pub fn response_bodyless(&mut self) {
        self.response(true)
    }
    fn response(&mut self, end: bool) {
        // the answer of the filter itself passes the response callbacks too
        self.phase = Phase::Response;
        self.flow = Flow::Go;
        self.host.with(|s| {
            s.resp_headers.get_or_insert_with(|| vec![(":status".to_string(), "200".to_string())]);
        });
        if let (true, Some(p)) = (end, self.p.as_mut()) {
            p.ctx.response_body.set_buffer_size(0, true);
        }
        self.eval();
        self.after();
        self.at_end(end);
    }
    pub fn response_body(&mut self, chunk: &[u8], end: bool) {
        let size = self.host.with(|s| {
            s.resp_body.extend_from_slice(chunk);
            s.resp_body.len()
        });
        if let Some(p) = self.p.as_mut() {
            p.ctx.response_body.set_buffer_size(size, end);
        }
        self.eval();
        self.after();
        self.at_end(end);
        self.hand_on();
    }
    fn at_end(&mut self, end: bool) {
        if self.p.is_some() && end {
            self.force_resume = true;
            if self.flow == Flow::Go {
                self.flow = Flow::Held;
            }
        }
    }
    pub fn request_trailers(&mut self) {
        if let Some(p) = self.p.as_mut() {
            let n = p.ctx.request_body.buffer_size();
            p.ctx.request_body.set_buffer_size(n, true);
        }
        self.eval();
        self.after();
        self.hand_on();
    }
    pub fn response_trailers(&mut self) {
        if let Some(p) = self.p.as_mut() {
            let n = p.ctx.response_body.buffer_size();
            p.ctx.response_body.set_buffer_size(n, true);
        }
        self.eval();
        self.after();
        self.at_end(true);
        self.hand_on();
    }
    /// a gRPC reply; true when the stream is resumed by it
    pub fn reply(&mut self, token: u32, status: u32, msg: &[u8]) -> bool {
        let Some(p) = self.p.take() else { return false };
        self.host.with(|s| s.grpc = msg.to_vec());
        let st = p.digest(token, status, msg.len());
        let resume = match self.step(st) {
            None => {
                let term = self.p.as_ref().is_some_and(|p| p.is_terminated());
                if self.force_resume {
                    false
                } else if term && self.phase == Phase::Response {
                    !self.paused()
                } else {
                    !term && !self.paused()
                }
            }
            Some(r) => r || self.force_resume || self.phase == Phase::Response,
        };
        if resume {
            self.flow = Flow::Go;
        } else if self.host.n_replies() > self.seen {
            self.flow = Flow::Answered;
        }
        self.seen = self.host.n_replies();
        self.hand_on();
        resume
    }
    pub fn terminated(&self) -> bool {
        self.p.as_ref().is_some_and(|p| p.is_terminated())
    }
    pub fn finished(&self) -> bool {
        self.p.is_none()
    }
}
