//! Stand-in for httpmock 0.7 (not available offline): the part of its
//! interface that generated mocks use, with the same meaning and bounds.
//! Expectations are evaluated on a request that is handed in instead of on
//! one received by a server.
//!
//! As in httpmock, the path of a request is the path as it came over the
//! wire, its query parameters are form-decoded pairs, and every expectation
//! has to be met for the mock to answer.

use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, Default)]
pub struct HttpMockRequest {
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Method {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}

impl std::fmt::Display for Method {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

pub type MockMatcherFunction = fn(&HttpMockRequest) -> bool;

#[derive(Default)]
struct Requirements {
    method: Option<Method>,
    path_matches: Vec<regex::Regex>,
    query_param: Vec<(String, String)>,
    body: Option<String>,
    json_body: Option<Value>,
    header: Vec<(String, String)>,
    matchers: Vec<MockMatcherFunction>,
    others: Vec<Box<dyn Fn(&HttpMockRequest) -> bool>>,
}

/// What is left of `b` when everything that is not in `a` is ignored.
fn includes(b: &Value, a: &Value) -> bool {
    match (b, a) {
        (Value::Object(b), Value::Object(a)) => a.iter().all(|(k, v)| b.get(k).map_or(false, |w| includes(w, v))),
        (Value::Array(b), Value::Array(a)) => a.iter().all(|v| b.iter().any(|w| includes(w, v))),
        _ => a == b,
    }
}
fn text(r: &HttpMockRequest) -> String {
    String::from_utf8_lossy(r.body.as_deref().unwrap_or(&[])).to_string()
}
fn pairs(r: &HttpMockRequest) -> &[(String, String)] {
    r.query_params.as_deref().unwrap_or(&[])
}
fn form(r: &HttpMockRequest) -> Vec<(String, String)> {
    url::form_urlencoded::parse(r.body.as_deref().unwrap_or(&[])).into_owned().collect()
}

pub struct When(Rc<RefCell<Requirements>>);

impl When {
    pub fn method<M: Into<Method>>(self, method: M) -> Self {
        self.0.borrow_mut().method = Some(method.into());
        self
    }
    pub fn path_matches<R: Into<regex::Regex>>(self, regex: R) -> Self {
        self.0.borrow_mut().path_matches.push(regex.into());
        self
    }
    pub fn query_param<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        self.0.borrow_mut().query_param.push((name.into(), value.into()));
        self
    }
    pub fn header<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        self.0.borrow_mut().header.push((name.into(), value.into()));
        self
    }
    pub fn body<S: Into<String>>(self, body: S) -> Self {
        self.0.borrow_mut().body = Some(body.into());
        self
    }
    pub fn json_body<V: Into<Value>>(self, value: V) -> Self {
        self.0.borrow_mut().json_body = Some(value.into());
        self
    }
    pub fn json_body_obj<'a, T: Serialize + serde::Deserialize<'a>>(self, body: &T) -> Self {
        self.0.borrow_mut().json_body = Some(serde_json::to_value(body).expect("cannot serialize json body"));
        self
    }
    pub fn matches(self, matcher: MockMatcherFunction) -> Self {
        self.0.borrow_mut().matchers.push(matcher);
        self
    }
    fn other(self, f: impl Fn(&HttpMockRequest) -> bool + 'static) -> Self {
        self.0.borrow_mut().others.push(Box::new(f));
        self
    }
    pub fn any_request(self) -> Self {
        self
    }
    pub fn and(self, func: impl FnOnce(When) -> When) -> Self {
        func(self)
    }
    pub fn path<S: Into<String>>(self, path: S) -> Self {
        let p = path.into();
        self.other(move |r| r.path == p)
    }
    pub fn path_contains<S: Into<String>>(self, part: S) -> Self {
        let p = part.into();
        self.other(move |r| r.path.contains(&p))
    }
    pub fn query_param_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.other(move |r| pairs(r).iter().any(|(k, _)| *k == n))
    }
    pub fn header_exists<S: Into<String>>(self, name: S) -> Self {
        let n = name.into();
        self.other(move |r| r.headers.as_deref().unwrap_or(&[]).iter().any(|(k, _)| k.eq_ignore_ascii_case(&n)))
    }
    pub fn body_contains<S: Into<String>>(self, part: S) -> Self {
        let p = part.into();
        self.other(move |r| text(r).contains(&p))
    }
    pub fn body_matches<R: Into<regex::Regex>>(self, regex: R) -> Self {
        let e = regex.into();
        self.other(move |r| e.is_match(&text(r)))
    }
    pub fn json_body_partial<S: Into<String>>(self, partial: S) -> Self {
        let p: Value = serde_json::from_str(&partial.into()).expect("cannot convert JSON string to serde value");
        self.other(move |r| serde_json::from_str(&text(r)).map_or(false, |b| includes(&b, &p)))
    }
    pub fn x_www_form_urlencoded_tuple<K: Into<String>, V: Into<String>>(self, key: K, value: V) -> Self {
        let p = (key.into(), value.into());
        self.other(move |r| form(r).contains(&p))
    }
    pub fn x_www_form_urlencoded_key_exists<S: Into<String>>(self, key: S) -> Self {
        let n = key.into();
        self.other(move |r| form(r).iter().any(|(k, _)| *k == n))
    }
}

#[derive(Default, Debug, Clone)]
pub struct Answer {
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub struct Then(Rc<RefCell<Answer>>);

impl Then {
    pub fn status(self, status: u16) -> Self {
        self.0.borrow_mut().status = Some(status);
        self
    }
    pub fn header<K: Into<String>, V: Into<String>>(self, name: K, value: V) -> Self {
        self.0.borrow_mut().headers.push((name.into(), value.into()));
        self
    }
    pub fn body<B: AsRef<[u8]>>(self, body: B) -> Self {
        self.0.borrow_mut().body = body.as_ref().to_vec();
        self
    }
    pub fn and(self, func: impl FnOnce(Then) -> Then) -> Self {
        func(self)
    }
    pub fn json_body<V: Into<Value>>(self, value: V) -> Self {
        self.0.borrow_mut().body = serde_json::to_vec(&value.into()).unwrap();
        self
    }
    pub fn json_body_obj<T: Serialize>(self, body: &T) -> Self {
        self.0.borrow_mut().body = serde_json::to_vec(&serde_json::to_value(body).unwrap()).unwrap();
        self
    }
}

/// A mock; `'a` as in httpmock, where it borrows the server.
pub struct Mock<'a> {
    when: Rc<RefCell<Requirements>>,
    then: Rc<RefCell<Answer>>,
    _server: &'a MockServer,
}

impl Mock<'_> {
    /// Whether the mock answers the request.
    pub fn accepts(&self, req: &HttpMockRequest) -> bool {
        let w = self.when.borrow();
        let pairs = req.query_params.as_deref().unwrap_or(&[]);
        w.method.map_or(true, |m| m.to_string() == req.method)
            && w.path_matches.iter().all(|r| r.is_match(&req.path))
            && w.query_param.iter().all(|p| pairs.contains(p))
            && w.header.iter().all(|(n, v)| {
                req.headers.as_deref().unwrap_or(&[]).iter().any(|(m, u)| m.eq_ignore_ascii_case(n) && u == v)
            })
            && w.body.as_ref().map_or(true, |b| req.body.as_deref().unwrap_or(&[]) == b.as_bytes())
            && w.json_body.as_ref().map_or(true, |j| {
                serde_json::from_slice::<Value>(req.body.as_deref().unwrap_or(&[])).map_or(false, |b| &b == j)
            })
            && w.matchers.iter().all(|m| m(req))
            && w.others.iter().all(|m| m(req))
    }

    pub fn answer(&self) -> Answer {
        self.then.borrow().clone()
    }
}

#[derive(Default)]
pub struct MockServer(());

impl MockServer {
    pub fn start() -> Self {
        Self(())
    }
    pub fn mock<F: FnOnce(When, Then)>(&self, config_fn: F) -> Mock<'_> {
        let (when, then) = (Rc::new(RefCell::new(Requirements::default())), Rc::new(RefCell::new(Answer::default())));
        config_fn(When(when.clone()), Then(then.clone()));
        Mock { when, then, _server: self }
    }
}

/// The request as httpmock presents it.
pub fn request(method: &str, target: &str, headers: Vec<(String, String)>, body: Vec<u8>) -> HttpMockRequest {
    let (path, query) = target.split_once('?').unwrap_or((target, ""));
    let url = url::Url::parse(&format!("http://localhost/?{query}")).unwrap();
    HttpMockRequest {
        path: path.to_string(),
        method: method.to_string(),
        headers: Some(headers),
        query_params: Some(url.query_pairs().map(|(k, v)| (k.to_string(), v.to_string())).collect()),
        body: Some(body),
    }
}
