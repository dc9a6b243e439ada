use kuadrant_filter::configuration::PluginConfiguration;
use kuadrant_filter::data::attribute::*;
use kuadrant_filter::filter::*;
use kuadrant_filter::kuadrant::resolver::*;
use kuadrant_filter::kuadrant::*;
use kuadrant_filter::services::ServiceError;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
struct St { next: u32, replies: Vec<u32>, calls: Vec<String> }
#[derive(Default)]
struct Host { st: Mutex<St> }
impl AttributeResolver for Host {
    fn get_attribute(&self, path: &Path) -> Result<Option<Vec<u8>>, AttributeError> {
        let p = path.tokens().join(".");
        Ok(match p.as_str() {
            "request.host" => Some(b"example.com".to_vec()),
            "request.method" => Some(b"GET".to_vec()),
            "request.path" | "request.url_path" => Some(b"/".to_vec()),
            "source.address" => Some(b"1.2.3.4:55".to_vec()),
            "source.port" | "destination.port" => Some(1i64.to_le_bytes().to_vec()),
            _ => None,
        })
    }
    fn get_attribute_map(&self, _m: MapType) -> Result<Vec<(String, String)>, AttributeError> { Ok(vec![]) }
    fn get_attribute_map_value(&self, _m: MapType, _key: &str) -> Result<Option<String>, AttributeError> { Ok(None) }
    fn set_attribute(&self, _path: &Path, _value: &[u8]) -> Result<(), AttributeError> { Ok(()) }
    fn set_attribute_map(&self, _m: MapType, _value: Vec<(&str, &str)>) -> Result<(), AttributeError> { Ok(()) }
    fn get_http_request_body(&self, _s: usize, _m: usize) -> Result<Option<Vec<u8>>, AttributeError> { Ok(None) }
    fn get_http_response_body(&self, _s: usize, _m: usize) -> Result<Option<Vec<u8>>, AttributeError> { Ok(None) }
    fn dispatch_grpc_call(&self, _u: &str, service: &str, _m: &str, _h: Vec<(&str, &[u8])>, _msg: Vec<u8>, _t: Duration) -> Result<u32, ServiceError> {
        let mut s = self.st.lock().unwrap(); s.next += 1; s.calls.push(service.to_string()); Ok(s.next)
    }
    fn get_grpc_response(&self, _n: usize) -> Result<Vec<u8>, ServiceError> { Ok(vec![]) }
    fn send_http_reply(&self, status: u32, _h: Vec<(&str, &str)>, _b: Option<&[u8]>) -> Result<(), ServiceError> { self.st.lock().unwrap().replies.push(status); Ok(()) }
}
const CFG: &str = r#"{"services":{"auth":{"type":"auth","endpoint":"auth-cluster","failureMode":"deny","timeout":"5s"},
"rl":{"type":"ratelimit","endpoint":"rl-cluster","failureMode":"allow","timeout":"5s"}},
"actionSets":[{"name":"s","routeRuleConditions":{"hostnames":["example.com"],"predicates":["request.method == 'GET'"]},
"actions":[{"service":"auth","scope":"a"},{"service":"rl","scope":"b","conditionalData":[{"data":[{"expression":{"key":"k","value":"request.path"}}]}]}]}]}"#;

pub fn probe() {
    let cfg: PluginConfiguration = serde_json::from_str(CFG).unwrap();
    crate::sym::mark("m1");
    let dm = Arc::new(DescriptorManager::default());
    crate::sym::mark("m2");
    for (c, s) in [("auth-cluster","envoy.service.auth.v3.Authorization"),("rl-cluster","envoy.service.ratelimit.v3.RateLimitService")] { dm.add_expected(DescriptorKey::new(c.into(), s.into())); }
    let f = match PipelineFactory::try_from(cfg, &dm) { Ok(f) => f, Err(e) => panic!("{:?}", e) };
    crate::sym::mark("m3");
    let host = Arc::new(Host::default());
    let ctx = ReqRespCtx::new(host.clone());
    let p = f.build(ctx).map_err(|_| ()).unwrap().unwrap();
    crate::sym::mark("m4");
    let mut st = p.eval();
    crate::sym::mark("m5");
    let mut n = 0;
    while let PipelineState::InProgress(p) = st {
        n += 1;
        if n > 4 { break; }
        let status = crate::sym::u32("status");
        st = p.digest(n, status, 0);
    }
    crate::sym::mark("m6");
    let s = host.st.lock().unwrap();
    crate::sym::check(s.replies.len() <= 1, "one reply");
    crate::sym::outn((s.calls.len() * 1000 + s.replies.len() * 100 + n as usize) as i64);
}
