//! The driver of host.rs over the callbacks of crates/wasm-shim themselves: the proxy's side of the
//! ABI for a stream and for the root context.
use crate::host::*;
use kuadrant_filter::filter::DescriptorManager;
use kuadrant_filter::kuadrant::PipelineFactory;
use proxy_wasm::traits::{HttpContext, RootContext};
use proxy_wasm::types::{Action, BufferType, Bytes, MapType, MetricType, Status};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wasm_shim::FilterRoot;

/// Counters by id, in the order the module defined them.
static COUNTERS: Mutex<Vec<String>> = Mutex::new(vec![]);
static ROOTS: Mutex<Vec<Root>> = Mutex::new(vec![]);

struct Side(Arc<Host>);
impl proxy_wasm::Host for Side {
    fn get_property(&self, path: &[&str]) -> Result<Option<Bytes>, Status> {
        match self.0.lookup(path) {
            A::V(b) => Ok(Some(b)),
            A::None => Ok(None),
            A::Pending => Err(Status::BadArgument),
            A::Err => Err(Status::InternalFailure),
        }
    }
    fn set_property(&self, path: &[&str], value: Option<&[u8]>) -> Result<(), Status> {
        if self.0.with(|s| s.fail_set_attr) {
            return Err(Status::InternalFailure);
        }
        let p = path.iter().map(|t| t.to_string()).collect();
        self.0.record(Ev::SetAttr { path: p, value: value.unwrap_or_default().to_vec() });
        Ok(())
    }
    fn get_map(&self, m: MapType) -> Result<Vec<(String, String)>, Status> {
        self.0.with(|s| match m {
            MapType::HttpRequestHeaders => Ok(s.req_headers.clone()),
            MapType::HttpResponseHeaders => Ok(s.resp_headers.clone().unwrap_or_default()),
            _ => Err(Status::BadArgument),
        })
    }
    fn set_map(&self, m: MapType, v: Vec<(&str, &str)>) -> Result<(), Status> {
        if self.0.with(|s| s.fail_set_map) {
            return Err(Status::InternalFailure);
        }
        let value: Vec<(String, String)> = v.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        let request = m == MapType::HttpRequestHeaders;
        if !request && self.0.with(|s| s.resp_headers.is_none()) {
            return Err(Status::BadArgument);
        }
        self.0.with(|s| if request { s.req_headers = value.clone() } else { s.resp_headers = Some(value.clone()) });
        self.0.record(Ev::SetMap { request, value });
        Ok(())
    }
    fn get_buffer(&self, b: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
        self.0.with(|s| match b {
            BufferType::HttpRequestBody => Ok(body(&s.req_body, start, max)),
            BufferType::HttpResponseBody => Ok(body(&s.resp_body, start, max)),
            BufferType::GrpcReceiveBuffer if s.fail_grpc_read => Err(Status::InternalFailure),
            BufferType::GrpcReceiveBuffer => Ok(body(&s.grpc, start, max)),
            BufferType::PluginConfiguration => Ok(body(&s.plugin_config, start, max)),
            _ => Err(Status::BadArgument),
        })
    }
    fn dispatch_grpc_call(&self, up: &str, service: &str, method: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, t: Duration) -> Result<u32, Status> {
        self.0.call(up, service, method, md, msg.unwrap_or_default().to_vec(), t).ok_or(Status::ParseFailure)
    }
    fn send_http_response(&self, status: u32, h: Vec<(&str, &str)>, b: Option<&[u8]>) -> Result<(), Status> {
        if self.0.with(|s| s.fail_reply) {
            return Err(Status::InternalFailure);
        }
        self.0.record(Ev::Reply { status, headers: own(h), body: b.map(|b| b.to_vec()) });
        Ok(())
    }
    fn define_metric(&self, t: MetricType, name: &str) -> Result<u32, Status> {
        if t != MetricType::Counter {
            return Err(Status::BadArgument);
        }
        let mut c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
        c.push(name.to_string());
        Ok(c.len() as u32)
    }
    fn increment_metric(&self, id: u32, offset: i64) -> Result<(), Status> {
        let c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
        let Some(n) = (id as usize).checked_sub(1).and_then(|i| c.get(i)) else { return Err(Status::NotFound) };
        self.0.with(|s| s.counted.push((n.clone(), offset)));
        Ok(())
    }
    fn resume(&self, request: bool) -> Result<(), Status> {
        self.0.with(|s| s.resumes.push(request));
        Ok(())
    }
    fn set_tick_period(&self, t: Duration) -> Result<(), Status> {
        self.0.with(|s| s.ticks.push(t.as_millis() as u64));
        Ok(())
    }
}
pub fn during<T>(h: &Arc<Host>, f: impl FnOnce() -> T) -> T {
    proxy_wasm::with_host(Rc::new(Side(h.clone())), f)
}

/// The root context and the proxy's side of it.
#[derive(Clone, Copy)]
pub struct Root {
    pub root: *mut FilterRoot,
    pub host: &'static Arc<Host>,
}
// the harness has one thread
unsafe impl Send for Root {}
impl Root {
    pub fn new() -> Root {
        let host: &'static Arc<Host> = Box::leak(Box::new(Host::new()));
        let root = during(host, || {
            wasm_shim::module_start();
            let mut r = Box::new(FilterRoot::new(1));
            r.on_vm_start(0);
            r
        });
        Root { root: Box::leak(root), host }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &'static mut FilterRoot {
        unsafe { &mut *self.root }
    }
    pub fn configure(&self, json: &str) -> bool {
        self.host.with(|s| s.plugin_config = json.as_bytes().to_vec());
        let ok = during(self.host, || self.get().on_configure(json.len()));
        if ok {
            // what requests are built with from here on, never dropped
            std::mem::forget(self.get().pipeline_factory.clone());
        }
        ok
    }
    pub fn tick(&self) {
        during(self.host, || self.get().on_tick())
    }
    pub fn reply(&self, token: u32, status: u32, msg: &[u8]) {
        use proxy_wasm::traits::Context;
        self.host.with(|s| s.grpc = msg.to_vec());
        during(self.host, || self.get().on_grpc_call_response(token, status, msg.len()))
    }
    pub fn stream(&self, host: &Arc<Host>) -> Box<dyn HttpContext> {
        match during(host, || self.get().create_http_context(2)) {
            Some(c) => c,
            None => panic!("no stream context"),
        }
    }
}
pub fn factory_and_descriptors(json: &str) -> (&'static PipelineFactory, &'static Arc<DescriptorManager>) {
    let r = Root::new();
    if !r.configure(json) {
        panic!("config rejected");
    }
    ROOTS.lock().unwrap_or_else(|e| e.into_inner()).push(r);
    let root: &'static FilterRoot = r.get();
    (&*root.pipeline_factory, &root.descriptor_manager)
}
fn root_of(f: &PipelineFactory) -> Root {
    let roots = ROOTS.lock().unwrap_or_else(|e| e.into_inner());
    match roots.iter().find(|r| std::ptr::eq(&*r.get().pipeline_factory, f)) {
        Some(r) => *r,
        None => panic!("a factory of no root context"),
    }
}

pub struct Proxy {
    pub host: Arc<Host>,
    c: Box<dyn HttpContext>,
    pub phase: Phase,
    pub built: Result<bool, ()>,
    pub flow: Flow,
    seen: usize,
    /// the request ends with its headers
    bodyless: bool,
}
impl Proxy {
    pub fn of(r: &Root, host: &Arc<Host>) -> Proxy {
        Proxy { host: host.clone(), c: r.stream(host), phase: Phase::Request, built: Ok(false), flow: Flow::Go, seen: 0, bodyless: false }
    }
    fn act(&mut self, a: Action) {
        self.flow = if self.host.n_replies() > self.seen {
            Flow::Answered
        } else if self.flow == Flow::Answered {
            Flow::Answered
        } else if a == Action::Pause {
            Flow::Held
        } else {
            Flow::Go
        };
        self.seen = self.host.n_replies();
    }
    pub fn headers(&mut self) {
        let n = self.host.with(|s| s.req_headers.len());
        let a = during(&self.host, || self.c.on_http_request_headers(n, self.bodyless));
        self.built = match ["kuadrant.hits", "kuadrant.misses", "kuadrant.errors"].map(|m| self.host.counted(m)) {
            [1, _, _] => Ok(true),
            [0, 1, 0] => Ok(false),
            _ => Err(()),
        };
        self.act(a);
    }
    pub fn start(f: &PipelineFactory, host: &Arc<Host>) -> Proxy {
        let mut x = Proxy::of(&root_of(f), host);
        x.headers();
        x
    }
    pub fn start_bodyless(f: &PipelineFactory, host: &Arc<Host>) -> Proxy {
        let mut x = Proxy::of(&root_of(f), host);
        x.bodyless = true;
        x.headers();
        x
    }
    pub fn request_body(&mut self, chunk: &[u8], end: bool) {
        let size = self.host.with(|s| {
            s.req_body.extend_from_slice(chunk);
            s.req_body.len()
        });
        let a = during(&self.host, || self.c.on_http_request_body(size, end));
        self.act(a);
        self.hand_on();
    }
    fn hand_on(&mut self) {
        if self.flow == Flow::Go {
            self.host.with(|s| if self.phase == Phase::Request { s.req_body.clear() } else { s.resp_body.clear() });
        }
    }
    pub fn response_headers(&mut self) {
        self.response(false)
    }
    pub fn response_bodyless(&mut self) {
        self.response(true)
    }
    fn response(&mut self, end: bool) {
        self.phase = Phase::Response;
        self.flow = Flow::Go;
        let n = self.host.with(|s| s.resp_headers.get_or_insert_with(|| vec![(":status".to_string(), "200".to_string())]).len());
        let a = during(&self.host, || self.c.on_http_response_headers(n, end));
        self.act(a);
    }
    pub fn response_body(&mut self, chunk: &[u8], end: bool) {
        let size = self.host.with(|s| {
            s.resp_body.extend_from_slice(chunk);
            s.resp_body.len()
        });
        let a = during(&self.host, || self.c.on_http_response_body(size, end));
        self.act(a);
        self.hand_on();
    }
    pub fn request_trailers(&mut self) {
        let a = during(&self.host, || self.c.on_http_request_trailers(1));
        self.act(a);
        self.hand_on();
    }
    pub fn response_trailers(&mut self) {
        let a = during(&self.host, || self.c.on_http_response_trailers(1));
        self.act(a);
        self.hand_on();
    }
    pub fn reply(&mut self, token: u32, status: u32, msg: &[u8]) -> bool {
        self.host.with(|s| {
            s.grpc = msg.to_vec();
            s.resumes.clear();
        });
        during(&self.host, || self.c.on_grpc_call_response(token, status, msg.len()));
        let r = self.host.with(|s| s.resumes.clone());
        let resume = r.contains(&(self.phase == Phase::Request));
        if resume {
            self.flow = Flow::Go;
        } else if self.host.n_replies() > self.seen {
            self.flow = Flow::Answered;
        }
        self.seen = self.host.n_replies();
        self.hand_on();
        resume
    }
    pub fn paused(&self) -> bool {
        self.flow == Flow::Held
    }
    /// The module does not tell: what depends on this is decided over the library alone.
    pub fn terminated(&self) -> bool {
        true
    }
    pub fn finished(&self) -> bool {
        true
    }
}
