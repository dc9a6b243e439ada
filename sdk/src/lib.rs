//! A stand-in for Kuadrant's fork of the proxy-wasm SDK (its sources are not available offline):
//! the traits, types and host calls crates/wasm-shim uses, handed to a `Host` the harness installs
//! for the duration of a callback.
use std::cell::RefCell;
use std::rc::Rc;

pub mod types {
    pub type Bytes = Vec<u8>;
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub enum LogLevel {
        Trace,
        Debug,
        Info,
        Warn,
        Error,
        Critical,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum Action {
        Continue,
        Pause,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum Status {
        Ok = 0,
        NotFound = 1,
        BadArgument = 2,
        SerializationFailure = 3,
        ParseFailure = 4,
        Empty = 7,
        CasMismatch = 8,
        InternalFailure = 10,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum ContextType {
        HttpContext,
        StreamContext,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum BufferType {
        HttpRequestBody,
        HttpResponseBody,
        DownstreamData,
        UpstreamData,
        HttpCallResponseBody,
        GrpcReceiveBuffer,
        VmConfiguration,
        PluginConfiguration,
        CallData,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum MapType {
        HttpRequestHeaders,
        HttpRequestTrailers,
        HttpResponseHeaders,
        HttpResponseTrailers,
        GrpcReceiveInitialMetadata,
        GrpcReceiveTrailingMetadata,
        HttpCallResponseHeaders,
        HttpCallResponseTrailers,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum MetricType {
        Counter,
        Gauge,
        Histogram,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum StreamType {
        HttpRequest,
        HttpResponse,
        Downstream,
        Upstream,
    }
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    #[non_exhaustive]
    pub enum PeerType {
        Unknown,
        Local,
        Remote,
    }
}
use types::*;

/// What the proxy does when the module calls it.
pub trait Host {
    fn get_property(&self, path: &[&str]) -> Result<Option<Bytes>, Status>;
    fn set_property(&self, path: &[&str], value: Option<&[u8]>) -> Result<(), Status>;
    fn get_map(&self, m: MapType) -> Result<Vec<(String, String)>, Status>;
    fn set_map(&self, m: MapType, v: Vec<(&str, &str)>) -> Result<(), Status>;
    fn get_buffer(&self, b: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status>;
    fn dispatch_grpc_call(&self, up: &str, service: &str, method: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, t: std::time::Duration) -> Result<u32, Status>;
    fn send_http_response(&self, status: u32, h: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status>;
    fn define_metric(&self, t: MetricType, name: &str) -> Result<u32, Status>;
    fn increment_metric(&self, id: u32, offset: i64) -> Result<(), Status>;
    fn resume(&self, request: bool) -> Result<(), Status>;
    fn set_tick_period(&self, t: std::time::Duration) -> Result<(), Status>;
}
thread_local! {
    static HOST: RefCell<Option<Rc<dyn Host>>> = const { RefCell::new(None) };
    static ROOT: RefCell<Option<fn(u32) -> Box<dyn traits::RootContext>>> = const { RefCell::new(None) };
}
fn host<T>(f: impl FnOnce(&dyn Host) -> T) -> T {
    let h = HOST.with(|h| h.borrow().clone());
    match h {
        Some(h) => f(&*h),
        None => panic!("host call outside a callback"),
    }
}
/// Run a callback of the module against `h`.
pub fn with_host<T>(h: Rc<dyn Host>, f: impl FnOnce() -> T) -> T {
    let before = HOST.with(|s| s.borrow_mut().replace(h));
    let r = f();
    HOST.with(|s| *s.borrow_mut() = before);
    r
}
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = hostcalls::log(LogLevel::Info, &r.args().to_string());
    }
    fn flush(&self) {}
}
pub fn set_log_level(_: LogLevel) {
    let _ = log::set_logger(&Logger);
    log::set_max_level(log::LevelFilter::Trace);
}
pub fn set_root_context(f: fn(u32) -> Box<dyn traits::RootContext>) {
    ROOT.with(|r| *r.borrow_mut() = Some(f));
}
/// The root context the module registered.
pub fn root_context(id: u32) -> Option<Box<dyn traits::RootContext>> {
    ROOT.with(|r| *r.borrow()).map(|f| f(id))
}

pub mod hostcalls {
    use super::host;
    use super::types::*;
    use std::time::Duration;
    pub fn log(_: LogLevel, _: &str) -> Result<(), Status> {
        Ok(())
    }
    pub fn get_log_level() -> Result<LogLevel, Status> {
        // nothing is logged
        Ok(LogLevel::Critical)
    }
    pub fn get_property<S: AsRef<str>>(path: Vec<S>) -> Result<Option<Bytes>, Status> {
        let p: Vec<&str> = path.iter().map(|s| s.as_ref()).collect();
        host(|h| h.get_property(&p))
    }
    pub fn set_property<S: AsRef<str>>(path: Vec<S>, value: Option<&[u8]>) -> Result<(), Status> {
        let p: Vec<&str> = path.iter().map(|s| s.as_ref()).collect();
        host(|h| h.set_property(&p, value))
    }
    pub fn get_map(m: MapType) -> Result<Vec<(String, String)>, Status> {
        host(|h| h.get_map(m))
    }
    pub fn get_map_value(m: MapType, key: &str) -> Result<Option<String>, Status> {
        let all = host(|h| h.get_map(m))?;
        Ok(all.into_iter().find(|e| e.0.eq_ignore_ascii_case(key)).map(|e| e.1))
    }
    pub fn get_map_bytes(m: MapType) -> Result<Vec<(String, Bytes)>, Status> {
        Ok(get_map(m)?.into_iter().map(|e| (e.0, e.1.into_bytes())).collect())
    }
    pub fn get_map_value_bytes(m: MapType, key: &str) -> Result<Option<Bytes>, Status> {
        Ok(get_map_value(m, key)?.map(String::into_bytes))
    }
    pub fn set_map(m: MapType, v: Vec<(&str, &str)>) -> Result<(), Status> {
        host(|h| h.set_map(m, v))
    }
    pub fn set_map_bytes(m: MapType, v: Vec<(&str, &[u8])>) -> Result<(), Status> {
        let mut all = Vec::new();
        for (k, b) in v {
            all.push((k, std::str::from_utf8(b).map_err(|_| Status::ParseFailure)?));
        }
        set_map(m, all)
    }
    /// All entries but those named `key`, then the given ones under it.
    fn change(m: MapType, key: &str, keep: bool, value: Option<&str>) -> Result<(), Status> {
        let all = get_map(m)?;
        let mut new: Vec<(&str, &str)> = all.iter().filter(|e| keep || !e.0.eq_ignore_ascii_case(key)).map(|e| (e.0.as_str(), e.1.as_str())).collect();
        new.extend(value.map(|v| (key, v)));
        set_map(m, new)
    }
    pub fn set_map_value(m: MapType, key: &str, value: Option<&str>) -> Result<(), Status> {
        change(m, key, false, value)
    }
    pub fn set_map_value_bytes(m: MapType, key: &str, value: Option<&[u8]>) -> Result<(), Status> {
        let v = value.map(std::str::from_utf8).transpose().map_err(|_| Status::ParseFailure)?;
        set_map_value(m, key, v)
    }
    pub fn add_map_value(m: MapType, key: &str, value: &str) -> Result<(), Status> {
        change(m, key, true, Some(value))
    }
    pub fn add_map_value_bytes(m: MapType, key: &str, value: &[u8]) -> Result<(), Status> {
        add_map_value(m, key, std::str::from_utf8(value).map_err(|_| Status::ParseFailure)?)
    }
    pub fn remove_map_value(m: MapType, key: &str) -> Result<(), Status> {
        change(m, key, false, None)
    }
    pub fn resume_http_request() -> Result<(), Status> {
        host(|h| h.resume(true))
    }
    pub fn resume_http_response() -> Result<(), Status> {
        host(|h| h.resume(false))
    }
    pub fn set_tick_period(t: Duration) -> Result<(), Status> {
        host(|h| h.set_tick_period(t))
    }
    pub fn get_current_time() -> Result<std::time::SystemTime, Status> {
        Ok(std::time::SystemTime::now())
    }
    pub fn get_grpc_status() -> Result<(u32, Option<String>), Status> {
        Err(Status::InternalFailure)
    }
    pub fn cancel_grpc_call(_token: u32) -> Result<(), Status> {
        Ok(())
    }
    pub fn set_effective_context(_: u32) -> Result<(), Status> {
        Ok(())
    }
    pub fn done() -> Result<(), Status> {
        Ok(())
    }
    pub fn get_buffer(b: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
        host(|h| h.get_buffer(b, start, max))
    }
    pub fn dispatch_grpc_call(up: &str, service: &str, method: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, t: Duration) -> Result<u32, Status> {
        host(|h| h.dispatch_grpc_call(up, service, method, md, msg, t))
    }
    pub fn send_http_response(status: u32, h: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status> {
        host(|x| x.send_http_response(status, h, body))
    }
    pub fn define_metric(t: MetricType, name: &str) -> Result<u32, Status> {
        host(|h| h.define_metric(t, name))
    }
    pub fn increment_metric(id: u32, offset: i64) -> Result<(), Status> {
        host(|h| h.increment_metric(id, offset))
    }
}

pub mod traits {
    use super::hostcalls;
    use super::types::*;
    use std::time::{Duration, SystemTime};
    pub trait Context {
        fn get_current_time(&self) -> Result<SystemTime, Status> {
            hostcalls::get_current_time()
        }
        fn get_property(&self, path: Vec<&str>) -> Result<Option<Bytes>, Status> {
            hostcalls::get_property(path)
        }
        fn set_property(&self, path: Vec<&str>, value: Option<&[u8]>) -> Result<(), Status> {
            hostcalls::set_property(path, value)
        }
        fn dispatch_grpc_call(&self, up: &str, service: &str, method: &str, md: Vec<(&str, &[u8])>, msg: Option<&[u8]>, t: Duration) -> Result<u32, Status> {
            hostcalls::dispatch_grpc_call(up, service, method, md, msg, t)
        }
        fn on_http_call_response(&mut self, _token_id: u32, _num_headers: usize, _body_size: usize, _num_trailers: usize) {}
        fn on_grpc_call_response(&mut self, _token_id: u32, _status_code: u32, _response_size: usize) {}
        fn get_grpc_call_response_body(&self, start: usize, max_size: usize) -> Result<Option<Bytes>, Status> {
            hostcalls::get_buffer(BufferType::GrpcReceiveBuffer, start, max_size)
        }
        fn cancel_grpc_call(&self, token_id: u32) -> Result<(), Status> {
            hostcalls::cancel_grpc_call(token_id)
        }
        fn get_grpc_status(&self) -> Result<(u32, Option<String>), Status> {
            hostcalls::get_grpc_status()
        }
        fn on_grpc_stream_initial_metadata(&mut self, _token_id: u32, _num_elements: u32) {}
        fn on_grpc_stream_message(&mut self, _token_id: u32, _message_size: usize) {}
        fn on_grpc_stream_trailing_metadata(&mut self, _token_id: u32, _num_elements: u32) {}
        fn on_grpc_stream_close(&mut self, _token_id: u32, _status_code: u32) {}
        fn on_foreign_function(&mut self, _function_id: u32, _arguments_size: usize) {}
        fn on_done(&mut self) -> bool {
            true
        }
        fn done(&self) -> Result<(), Status> {
            hostcalls::done()
        }
    }
    pub trait RootContext: Context {
        fn on_vm_start(&mut self, _vm_configuration_size: usize) -> bool {
            true
        }
        fn get_vm_configuration(&self) -> Result<Option<Bytes>, Status> {
            hostcalls::get_buffer(BufferType::VmConfiguration, 0, usize::MAX)
        }
        fn on_configure(&mut self, _plugin_configuration_size: usize) -> bool {
            true
        }
        fn get_plugin_configuration(&self) -> Result<Option<Bytes>, Status> {
            hostcalls::get_buffer(BufferType::PluginConfiguration, 0, usize::MAX)
        }
        fn set_tick_period(&self, period: Duration) -> Result<(), Status> {
            hostcalls::set_tick_period(period)
        }
        fn on_tick(&mut self) {}
        fn on_queue_ready(&mut self, _queue_id: u32) {}
        fn on_log(&mut self) {}
        fn create_http_context(&self, _context_id: u32) -> Option<Box<dyn HttpContext>> {
            None
        }
        fn create_stream_context(&self, _context_id: u32) -> Option<Box<dyn StreamContext>> {
            None
        }
        fn get_type(&self) -> Option<ContextType> {
            None
        }
    }
    pub trait StreamContext: Context {
        fn on_new_connection(&mut self) -> Action {
            Action::Continue
        }
        fn on_log(&mut self) {}
    }
    pub trait HttpContext: Context {
        fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
            Action::Continue
        }
        fn get_http_request_headers(&self) -> Result<Vec<(String, String)>, Status> {
            hostcalls::get_map(MapType::HttpRequestHeaders)
        }
        fn set_http_request_headers(&self, headers: Vec<(&str, &str)>) -> Result<(), Status> {
            hostcalls::set_map(MapType::HttpRequestHeaders, headers)
        }
        fn get_http_request_header(&self, name: &str) -> Result<Option<String>, Status> {
            hostcalls::get_map_value(MapType::HttpRequestHeaders, name)
        }
        fn set_http_request_header(&self, name: &str, value: Option<&str>) -> Result<(), Status> {
            hostcalls::set_map_value(MapType::HttpRequestHeaders, name, value)
        }
        fn add_http_request_header(&self, name: &str, value: &str) -> Result<(), Status> {
            hostcalls::add_map_value(MapType::HttpRequestHeaders, name, value)
        }
        fn remove_http_request_header(&self, name: &str) -> Result<(), Status> {
            hostcalls::remove_map_value(MapType::HttpRequestHeaders, name)
        }
        fn on_http_request_body(&mut self, _body_size: usize, _end_of_stream: bool) -> Action {
            Action::Continue
        }
        fn get_http_request_body(&self, start: usize, max_size: usize) -> Result<Option<Bytes>, Status> {
            hostcalls::get_buffer(BufferType::HttpRequestBody, start, max_size)
        }
        fn on_http_request_trailers(&mut self, _num_trailers: usize) -> Action {
            Action::Continue
        }
        fn get_http_request_trailers(&self) -> Result<Vec<(String, String)>, Status> {
            hostcalls::get_map(MapType::HttpRequestTrailers)
        }
        fn resume_http_request(&self) -> Result<(), Status> {
            hostcalls::resume_http_request()
        }
        fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
            Action::Continue
        }
        fn get_http_response_headers(&self) -> Result<Vec<(String, String)>, Status> {
            hostcalls::get_map(MapType::HttpResponseHeaders)
        }
        fn set_http_response_headers(&self, headers: Vec<(&str, &str)>) -> Result<(), Status> {
            hostcalls::set_map(MapType::HttpResponseHeaders, headers)
        }
        fn get_http_response_header(&self, name: &str) -> Result<Option<String>, Status> {
            hostcalls::get_map_value(MapType::HttpResponseHeaders, name)
        }
        fn set_http_response_header(&self, name: &str, value: Option<&str>) -> Result<(), Status> {
            hostcalls::set_map_value(MapType::HttpResponseHeaders, name, value)
        }
        fn add_http_response_header(&self, name: &str, value: &str) -> Result<(), Status> {
            hostcalls::add_map_value(MapType::HttpResponseHeaders, name, value)
        }
        fn remove_http_response_header(&self, name: &str) -> Result<(), Status> {
            hostcalls::remove_map_value(MapType::HttpResponseHeaders, name)
        }
        fn on_http_response_body(&mut self, _body_size: usize, _end_of_stream: bool) -> Action {
            Action::Continue
        }
        fn get_http_response_body(&self, start: usize, max_size: usize) -> Result<Option<Bytes>, Status> {
            hostcalls::get_buffer(BufferType::HttpResponseBody, start, max_size)
        }
        fn on_http_response_trailers(&mut self, _num_trailers: usize) -> Action {
            Action::Continue
        }
        fn get_http_response_trailers(&self) -> Result<Vec<(String, String)>, Status> {
            hostcalls::get_map(MapType::HttpResponseTrailers)
        }
        fn resume_http_response(&self) -> Result<(), Status> {
            hostcalls::resume_http_response()
        }
        fn send_http_response(&self, status: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status> {
            hostcalls::send_http_response(status, headers, body)
        }
        fn on_log(&mut self) {}
    }
}
