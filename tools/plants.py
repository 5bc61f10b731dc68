"""The planted bugs (see plant.py).  Each is written from the text of a property."""

CL = "progenitor-client/src/progenitor_client.rs"
ME = "progenitor-impl/src/method.rs"
TE = "progenitor-impl/src/template.rs"
LI = "progenitor-impl/src/lib.rs"
SC = "progenitor-impl/src/to_schema.rs"
UT = "progenitor-impl/src/util.rs"

STR, INT = {"type": "string"}, {"type": "integer", "format": "int64"}
OK = {"200": {"description": "ok", "content": {"application/json": {"schema": STR}}}}


def prm(name, loc, req=None, schema=STR):
    return {"name": name, "in": loc, "required": loc == "path" if req is None else req, "schema": schema}


def op(oid="op", params=(), responses=None, **kw):
    return {"operationId": oid, "parameters": list(params), "responses": responses or OK, **kw}


def doc(paths, **kw):
    return {"openapi": "3.0.3", "info": {"title": "t", "version": "1.2.3"}, "paths": paths, **kw}


HEAD = '''
mod mini;
use mini::*;
'''
IHEAD = HEAD + '''
#[allow(warnings)]
mod api;
'''
POS = [{"style": "positional", "out": "api.rs"}]
BLD = [{"style": "builder", "out": "api.rs"}]

SCH = [{"style": "positional", "want": ["schemas"]}]
SHEAD = HEAD + """
/// What the type generator received for a component.
fn schema(name: &str) -> serde_json::Value {
    let t = std::fs::read_to_string("../out.ndjson").unwrap();
    let v: serde_json::Value = serde_json::from_str(t.lines().next().unwrap()).unwrap();
    v["schemas"].as_array().unwrap().iter().find(|p| p[0] == name).unwrap()[1].clone()
}
"""
MOCK = [{"style": "positional", "out": "api.rs"}, {"style": "httpmock", "out": "mocks.rs", "crate_path": "crate::api"}]
NONE = {"204": {"description": "done"}}
MDEP = 'httpmock = { path = "@KIT@/stubs/httpmock" }\n'
MHEAD = IHEAD + """
#[allow(warnings)]
mod mocks;
use httpmock::*;
use mocks::MockServerExt;
"""
CLI = [{"style": "builder", "out": "api.rs"}, {"style": "cli_merged", "out": "cli.rs", "crate_path": "crate::api"}]
CDEP = 'clap = { version = "4", default-features = false, features = ["std", "string", "help", "usage", "error-context"] }\nanyhow = "1"\nschemars = { path = "@KIT@/stubs/schemars" }\n'
CHEAD = IHEAD + """
#[allow(warnings)]
mod cli;
use api::{Error, ResponseValue};
use std::sync::Mutex;
static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);
fn log(s: impl Into<String>) {
    LOG.lock().unwrap().push(s.into())
}
struct Rec;
impl cli::CliConfig for Rec {
    fn success_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, v: &ResponseValue<T>) {
        log(format!("item {}", serde_json::to_string(&**v).unwrap()))
    }
    fn success_no_item(&self, _: &ResponseValue<()>) {
        log("done")
    }
    fn error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &Error<T>) {
        log("error")
    }
    fn list_start<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {}
    fn list_item<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, v: &T) {
        log(format!("element {}", serde_json::to_string(v).unwrap()))
    }
    fn list_end_success<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self) {
        log("end")
    }
    fn list_end_error<T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug>(&self, _: &Error<T>) {
        log("error")
    }
}
/// Parses and runs a command line; `None` if it is refused.
async fn run(url: &str, argv: &[&str]) -> Option<bool> {
    let m = cli::Cli::<Rec>::get_command(cli::CliCommand::Op).no_binary_name(true).try_get_matches_from(argv).ok()?;
    Some(cli::Cli::new(api::Client::new_with_client(url, reqwest::Client::new()), Rec).execute(cli::CliCommand::Op, &m).await.is_ok())
}
"""
MA = "progenitor-macro/src/lib.rs"
CA = "cargo-progenitor/src/main.rs"
# Drives the real command or macro.
SHEADPY = """
import json, os, subprocess, sys, tomllib
T, REPO = os.environ["T"], os.environ["REPO"]


def build(crate):
    subprocess.run(["cargo", "+stable", "build", "-q", "--offline"], cwd=T + "/kit/harness/" + crate, check=True)


def command(doc, out, *args):
    with open(T + "/doc.json", "w") as f:
        json.dump(doc, f)
    subprocess.run([os.environ["CARGO_TARGET_DIR"] + "/debug/cargo-progenitor", "progenitor", "-i", T + "/doc.json", "-o", out,
                    "-n", "made", "-v", "1.2.3", *args], check=True, stdout=subprocess.DEVNULL)


def expect(what, ok, got=""):
    if not ok:
        print("FAILED:", what, got)
        sys.exit(1)


STR = {"type": "string"}


def op(oid="op", params=(), schema=STR, **kw):
    return {"operationId": oid, "parameters": list(params), "responses": {"200": {"description": "", "content": {"application/json": {"schema": schema}}}}, **kw}


def doc(paths, schemas=None):
    return {"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": paths, "components": {"schemas": schemas or {}}}


"""
# Compiles a small program using the macro.
MACROPY = SHEADPY + """
def program(d, text, deps=""):
    c = T + "/client"
    os.makedirs(c + "/src", exist_ok=True)
    with open(c + "/doc.json", "w") as f:
        json.dump(d, f)
    with open(c + "/Cargo.toml", "w") as f:
        f.write('[package]\\nname = "client"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
                'progenitor = { path = "%s/kit/harness/progenitor-shim", features = ["macro"] }\\n'
                'progenitor-client = { path = "%s/progenitor-client" }\\n'
                'reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }\\n'
                'tokio = { version = "1", features = ["rt-multi-thread", "net", "macros"] }\\n'
                'serde = { version = "1", features = ["derive"] }\\nserde_json = "1"\\nfutures = "0.3"\\nbytes = "1"\\n%s' % (T, REPO, deps))
    with open(c + "/src/main.rs", "w") as f:
        f.write(text)
    r = subprocess.run(["cargo", "+stable", "run", "-q", "--offline"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


"""

PLANTS = [
    dict(id="c01-encoded-passthrough", property="C01",
         needs="a path value that itself contains a valid percent escape such as a%2Fb",
         breaks="A value that looks percent-encoded is put into the URL as it is, so the server decodes it to something else than the caller gave (a%2Fb arrives as a/b).",
         edits=[(CL, "    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()\n",
                 "    // Values that already carry escapes are not encoded a second time.\n"
                 "    let escaped = pc.as_bytes().windows(3).any(|w| {\n"
                 "        w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit()\n"
                 "    });\n"
                 "    if escaped && percent_encoding::utf8_percent_encode(pc, PATH_SET_RESERVED).to_string() == pc {\n"
                 "        return pc.to_string();\n"
                 "    }\n"
                 "    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()\n"),
                (CL, "#[doc(hidden)]\n/// Percent encode input string.\n",
                 "const PATH_SET_RESERVED: &percent_encoding::AsciiSet = &PATH_SET.remove(b'%');\n\n"
                 "#[doc(hidden)]\n/// Percent encode input string.\n")],
         main=HEAD + '''
fn main() {
    use progenitor_client::encode_path;
    let e = encode_path("plain text/x");
    expect("ordinary value", e == "plain%20text%2Fx", &e);
    let e = encode_path("a%2Fb");
    expect("escape-like value is encoded", e == "a%252Fb", &e);
}
'''),
    dict(id="c02-f32-widened", property="C02",
         needs="a 32-bit float query value that is not exact in decimal, e.g. 0.1",
         breaks="f32 query values are widened to f64 before they are printed: 0.1 arrives as 0.10000000149011612.",
         edits=[(CL, "    serialize_scalar!(serialize_f32, f32);\n",
                 "    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {\n"
                 "        self.serialize_f64(v.into())\n    }\n")],
         main=HEAD + '''
use progenitor_client::QueryParam;
fn q<T: serde::Serialize>(n: &str, v: &T) -> String {
    let c = reqwest::Client::new();
    c.get("http://h/").query(&QueryParam::new(n, v)).build().unwrap().url().query().unwrap_or("").to_string()
}
fn main() {
    let e = q("x", &0.5f32);
    expect("exact float", e == "x=0.5", &e);
    let e = q("x", &0.1f32);
    expect("inexact float", e == "x=0.1", &e);
}
'''),
    dict(id="c03-text-subtype", property="C03",
         needs="an operation whose plain-text body is declared as something other than text/plain",
         breaks="A text/x-markdown body is labelled text/plain.",
         edits=[(ME, '"text/plain" | "text/x-markdown" => Ok(Self::Text(String::from(&s[..offset]))),',
                 '"text/plain" | "text/x-markdown" => {\n'
                 '                let (top, _) = s[..offset].split_once(\'/\').unwrap();\n'
                 '                Ok(Self::Text(format!("{}/plain", top)))\n            }')],
         doc=doc({"/n": {"post": op(requestBody={"required": True, "content": {"text/x-markdown": {"schema": STR}}})}}),
         runs=POS,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op("# hi".to_string()).await.unwrap();
    let r = s.seen().remove(0);
    expect("body", r.body == b"# hi", &r);
    expect("content type", r.header("content-type") == ["text/x-markdown"], &r);
}
'''),
    dict(id="c04-empty-optional-header", property="C04",
         needs="an optional header parameter given as the empty string",
         breaks="An optional header whose value is the empty string is not sent although the caller gave it.",
         edits=[(ME, "                            if let Some(value) = #hn_ident {\n",
                 "                            if let Some(value) = #hn_ident.filter(|v| !v.to_string().is_empty()) {\n")],
         doc=doc({"/n": {"get": op(params=[prm("x-note", "header", False)])}}), runs=POS,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op(Some("v")).await.unwrap();
    c.op(None).await.unwrap();
    c.op(Some("")).await.unwrap();
    let r = s.seen();
    expect("given", r[0].header("x-note") == ["v"], &r[0]);
    expect("absent", r[1].header("x-note").is_empty(), &r[1]);
    expect("empty", r[2].header("x-note") == [""], &r[2]);
}
'''),
    dict(id="c05-range-edge", property="C05",
         needs="a response declared for status 599, the last of its class",
         breaks="A declared response for status 599 is left out, so the answer is reported as undeclared.",
         edits=[(ME, "                | OperationResponseStatus::Code(400..=599)\n",
                 "                | OperationResponseStatus::Code(400..599)\n")],
         doc=doc({"/n": {"get": op(responses={**OK, "400": OK["200"], "598": OK["200"], "599": OK["200"]})}}), runs=POS,
        main=IHEAD + '''
#[tokio::main]
async fn main() {
    for st in [400u16, 598, 599] {
        let s = serve(vec![json(st, "\\"why\\"")]);
        let c = api::Client::new(&s.url);
        let e = c.op().await.unwrap_err();
        let ok = matches!(&e, progenitor_client::Error::ErrorResponse(r) if r.status().as_u16() == st);
        expect(&format!("declared error {st}"), ok, e);
    }
}
'''),
    dict(id="c06-empty-body-null", property="C06",
         needs="a typed response whose body is empty and whose type admits null",
         breaks="A zero-length body, which is not JSON, is decoded as null and returned as a value.",
         edits=[(CL, "        let inner =\n            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;\n",
                 "        // Some servers send no body at all in place of `null`.\n"
                 "        let text: &[u8] = if full.is_empty() { b\"null\" } else { &full };\n"
                 "        let inner =\n            serde_json::from_slice(text).map_err(|e| Error::InvalidResponsePayload(full.clone(), e))?;\n")],
         main=HEAD + '''
use progenitor_client::{Error, ResponseValue};
#[tokio::main]
async fn main() {
    for (body, good) in [("null", true), ("\\"x\\"", true), ("", false), ("nul", false)] {
        let s = serve(vec![json(200, body)]);
        let r = reqwest::get(&s.url).await.unwrap();
        let v: Result<ResponseValue<Option<String>>, Error<()>> = ResponseValue::from_response(r).await;
        let ok = match &v {
            Ok(_) => good,
            Err(Error::InvalidResponsePayload(b, _)) => !good && &b[..] == body.as_bytes(),
            Err(_) => false,
        };
        expect(&format!("body {body:?}"), ok, v);
    }
}
'''),
    dict(id="c07-cut-is-end", property="C07",
         needs="a chunked response whose connection breaks after some of the body",
         breaks="A stream whose connection breaks in the middle of the body ends cleanly instead of yielding an error.",
         edits=[(CL, "            inner: ByteStream(Box::pin(response.bytes_stream())),\n",
                 "            inner: ByteStream(Box::pin(BodyChunks {\n"
                 "                inner: Box::pin(response.bytes_stream()),\n"
                 "                delivered: false,\n"
                 "            })),\n"),
                (CL, "impl ResponseValue<()> {\n",
                 "/// The chunks of a response body.\n"
                 "struct BodyChunks {\n    inner: InnerByteStream,\n    delivered: bool,\n}\n\n"
                 "impl Stream for BodyChunks {\n    type Item = reqwest::Result<Bytes>;\n\n"
                 "    fn poll_next(\n        mut self: std::pin::Pin<&mut Self>,\n        cx: &mut std::task::Context<'_>,\n"
                 "    ) -> std::task::Poll<Option<Self::Item>> {\n"
                 "        let next = self.inner.as_mut().poll_next(cx);\n"
                 "        if let std::task::Poll::Ready(Some(r)) = &next {\n"
                 "            match r {\n"
                 "                Ok(_) => self.delivered = true,\n"
                 "                // Some servers just close the connection when done.\n"
                 "                Err(e) if self.delivered && !e.is_timeout() => return std::task::Poll::Ready(None),\n"
                 "                Err(_) => (),\n            }\n        }\n        next\n    }\n}\n\n"
                 "impl ResponseValue<()> {\n")],
         main=HEAD + '''
use futures::StreamExt;
use progenitor_client::ResponseValue;
#[tokio::main]
async fn main() {
    for (tail, clean) in [("0\\r\\n\\r\\n", true), ("", false), ("5\\r\\nab", false)] {
        let s = serve(vec![format!("HTTP/1.1 200 OK\\r\\ntransfer-encoding: chunked\\r\\nconnection: close\\r\\n\\r\\n3\\r\\nabc\\r\\n{tail}").into_bytes()]);
        let r = reqwest::get(&s.url).await.unwrap();
        let mut st = ResponseValue::stream(r).into_inner_stream();
        let (mut got, mut err) = (vec![], false);
        while let Some(c) = st.next().await {
            match c {
                Ok(c) => got.extend_from_slice(&c),
                Err(_) => { err = true; break }
            }
        }
        expect(&format!("tail {tail:?}"), got.starts_with(b"abc") && err == !clean, (got, err));
    }
}
'''),
    dict(id="c08-untyped-body-error", property="C08",
         needs="a body-read error that is converted to the untyped form",
         breaks="into_untyped turns a body-read error into a communication error.",
         edits=[(CL, "            Error::ResponseBodyError(e) => Error::ResponseBodyError(e),\n",
                 "            Error::ResponseBodyError(e) => e.into(),\n")],
         main=HEAD + '''
use progenitor_client::{Error, ResponseValue};
#[tokio::main]
async fn main() {
    let s = serve(vec![b"HTTP/1.1 200 OK\\r\\ncontent-length: 10\\r\\nconnection: close\\r\\n\\r\\nabc".to_vec()]);
    let r = reqwest::get(&s.url).await.unwrap();
    let e: Error<String> = ResponseValue::<String>::from_response(r).await.unwrap_err();
    expect("category", matches!(e, Error::ResponseBodyError(_)), &e);
    let u = e.into_untyped();
    expect("category after into_untyped", matches!(u, Error::ResponseBodyError(_)), &u);
}
'''),
    dict(id="c09-header-lost", property="C09",
         needs="the builder's stream over at least two pages with an optional header parameter set",
         breaks="From the second page on, the builder's stream leaves out the caller's optional header parameters.",
         edits=[(ME, '''                if param.api_name.as_str() != "limit"
                    && matches!(param.kind, OperationParameterKind::Query(_))
                {
                    // Query parameters (other than "limit") are None; having
''', '''                if param.api_name.as_str() != "limit" && param.kind.is_optional() {
                    // Query parameters (other than "limit") are None; having
''')],
         doc=doc({"/n": {"get": op(params=[prm("limit", "query", False, INT), prm("page_token", "query", False),
                                           prm("sort", "query", False), prm("x-tenant", "header", False)],
                                   responses={"200": {"description": "ok", "content": {"application/json": {
                                       "schema": {"$ref": "#/components/schemas/Page"}}}}},
                                   **{"x-dropshot-pagination": {"required": []}})}},
                 components={"schemas": {"Page": {"type": "object", "required": ["items"], "properties": {
                     "items": {"type": "array", "items": STR}, "next_page": {"type": "string", "nullable": True}}}}}),
         runs=BLD,
         main=IHEAD + '''
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, r#"{"items":["a"],"next_page":"t1"}"#), json(200, r#"{"items":["b"]}"#)]);
    let c = api::Client::new(&s.url);
    let got: Vec<_> = c.op().limit(7).sort("up").x_tenant("acme").stream().map(|r| r.unwrap()).collect().await;
    expect("items", got == ["a", "b"], got);
    let r = s.seen();
    expect("first", r[0].header("x-tenant") == ["acme"], &r[0]);
    expect("second carries the limit", r[1].target().contains("limit=7"), &r[1]);
    expect("second carries the token only", !r[1].target().contains("sort"), &r[1]);
    expect("second carries the header", r[1].header("x-tenant") == ["acme"], &r[1]);
}
'''),
    dict(id="c10-post-hook-lost", property="C10",
         needs="both a post-hook and an async post-hook configured, the async one last",
         breaks="Setting an async post-hook silently removes the synchronous one.",
         edits=[(LI, "    pub fn with_post_hook_async(&mut self, post_hook: TokenStream) -> &mut Self {\n",
                 "    pub fn with_post_hook_async(&mut self, post_hook: TokenStream) -> &mut Self {\n        self.post_hook = None;\n")],
        doc=doc({"/n": {"get": op()}}),
         runs=[{"style": "positional", "out": "api.rs", "settings": {
             "post_hook": "crate::post", "post_hook_async": "crate::post_async"}}],
         main=IHEAD + '''
use std::sync::Mutex;
static LOG: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
pub fn post(_: &Result<reqwest::Response, reqwest::Error>) {
    LOG.lock().unwrap().push("post");
}
pub async fn post_async(_: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
    LOG.lock().unwrap().push("post_async");
    Err("no".to_string())
}
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    let e = c.op().await.unwrap_err();
    expect("category", matches!(e, progenitor_client::Error::PostHookError(_)), &e);
    let l = LOG.lock().unwrap().clone();
    expect("hooks", l == ["post", "post_async"], l);
}
'''),
    dict(id="c11-first-error-sticks", property="C11",
         needs="an optional builder parameter set to an invalid value and then to a valid one",
         breaks="Once a value given for an optional parameter failed to convert, a later valid value is ignored and send keeps failing.",
         edits=[(ME, '''                                        self.#param_name = value.try_into()
                                            .map(Some)
                                            .map_err(|_| #err_msg.to_string());
''', '''                                        let value = value.try_into()
                                            .map(Some)
                                            .map_err(|_| #err_msg.to_string());
                                        self.#param_name = self.#param_name.and(value);
''')],
         doc=doc({"/n": {"get": op(params=[prm("n", "query", False, {"type": "integer", "format": "uint8"})])}}),
         runs=BLD,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    let e = c.op().n(1u8).n(1000u64).send().await.unwrap_err();
    expect("invalid last", matches!(e, progenitor_client::Error::InvalidRequest(_)), &e);
    let r = c.op().n(1000u64).n(3u8).send().await;
    expect("valid last", r.is_ok(), r);
    expect("request", s.seen()[0].target() == "/n?n=3", s.seen());
}
'''),
    dict(id="c12-short-key", property="C12",
         needs="a websocket operation against a server that looks at the key",
         breaks="The Sec-WebSocket-Key is the base64 form of 12 random bytes instead of 16: not a well-formed upgrade request.",
         edits=[(ME, "::rand::random::<[u8; 16]>(),", "::rand::random::<[u8; 12]>(),")],
         doc=doc({"/n": {"get": op(responses={"default": {"description": "", "content": {"*/*": {"schema": {}}}}},
                                   **{"x-dropshot-websocket": {}})}}),
         runs=POS,
         main=IHEAD + '''
use base64::Engine;
#[tokio::main]
async fn main() {
    let s = serve(vec![resp(400, "", "")]);
    let c = api::Client::new(&s.url);
    let r = c.op().await;
    expect("no switch, no connection", r.is_err(), 0);
    let r = s.seen().remove(0);
    let k = r.header("sec-websocket-key");
    expect("one key", k.len() == 1, &r);
    let k = base64::engine::general_purpose::STANDARD.decode(k[0]);
    expect("16 bytes", matches!(&k, Ok(b) if b.len() == 16), k);
}
'''),
    dict(id="c13-ids-too-close", property="C13",
         needs="two operations of one document whose IDs differ only in letter case",
         breaks="Documents with distinct operation IDs that differ only in letter case are refused as duplicates.",
         edits=[(LI, "                        if !opids.insert(oid.to_string()) {\n", "                        if !opids.insert(oid.to_lowercase()) {\n")],
         doc=doc({"/n": {"get": op("listDisks")}, "/m": {"get": op("listdisks")}}), runs=POS,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.list_disks().await.unwrap();
    c.listdisks().await.unwrap();
    let r = s.seen();
    expect("both operations", r[0].target() == "/n" && r[1].target() == "/m", r);
}
'''),
    dict(id="c14-trailing-slash", property="C14",
         needs="a path template that ends with a slash after literal text",
         breaks="The trailing slash of a template is dropped, so requests go to another path.",
         edits=[(TE, "        State::Constant => components.push(Component::Constant(a)),\n        State::Parameter => return",
                 "        State::Constant => {\n            // A trailing slash carries no meaning.\n"
                 "            if a.len() > 1 && a.ends_with('/') {\n                a.pop();\n            }\n"
                 "            components.push(Component::Constant(a))\n        }\n        State::Parameter => return")],
         doc=doc({"/v1/{id}/items/": {"get": op(params=[prm("id", "path")])}}), runs=POS,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op("x").await.unwrap();
    expect("path", s.seen()[0].target() == "/v1/x/items/", s.seen());
}
'''),
    dict(id="c15-bracket-name", property="C15",
         needs="a query parameter whose name ends in []",
         breaks="A query parameter named ids[] is sent as ids.",
         edits=[(ME, '''                        Ok(OperationParameter {
                            name: sanitize(&parameter_data.name, Case::Snake),
                            api_name: parameter_data.name.clone(),
                            description: parameter_data.description.clone(),
                            typ: OperationParameterType::Type(type_id),
''', '''                        Ok(OperationParameter {
                            name: sanitize(&parameter_data.name, Case::Snake),
                            api_name: parameter_data.name.trim_end_matches("[]").to_string(),
                            description: parameter_data.description.clone(),
                            typ: OperationParameterType::Type(type_id),
''')],
         doc=doc({"/n": {"get": op(params=[prm("ids[]", "query", False, {"type": "array", "items": STR})])}}), runs=POS,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    let v = vec!["a".to_string(), "b".to_string()];
    c.op(Some(&v)).await.unwrap();
    expect("query", s.seen()[0].target() == "/n?ids%5B%5D=a&ids%5B%5D=b", s.seen());
}
'''),
    dict(id="c16-strictest-wins", property="C16",
         needs="a required path-item parameter that an operation redeclares as optional",
         breaks="An operation that makes a path-item parameter optional still gets it as required.",
         edits=[(ME, '''            let parameter = operation_param?;
            combined_path_parameters.insert(&parameter.parameter_data_ref().name, parameter);
''', '''            let parameter = operation_param?;
            let data = parameter.parameter_data_ref();
            match combined_path_parameters.get(&data.name) {
                // The stricter of two otherwise compatible declarations.
                Some(outer)
                    if outer.parameter_data_ref().required
                        && outer.parameter_data_ref().format == data.format => {}
                _ => {
                    combined_path_parameters.insert(&data.name, parameter);
                }
            }
''')],
         doc=doc({"/n": {"parameters": [prm("q", "query", True)], "get": op(params=[prm("q", "query", False)])}}), runs=BLD,
         main=IHEAD + '''
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op().q("x").send().await.unwrap();
    let r = c.op().send().await;
    expect("optional in the operation", r.is_ok(), r);
}
'''),
    dict(id="c19-exclusive-zero", property="C19",
         needs="a number schema with an exclusive minimum of exactly zero",
         breaks="The exclusive bound 0 of a number schema is dropped: zero and negative numbers become valid.",
         edits=[(SC, """                    (v, true) => (None, *v),
                    (v, false) => (*v, None),
                };
                schemars""", """                    (v, true) => (None, v.filter(|b| b.is_normal())),
                    (v, false) => (*v, None),
                };
                schemars""")],
         doc=doc({"/n": {"get": op()}}, components={"schemas": {"P": {"type": "number", "minimum": 0, "exclusiveMinimum": True},
                                                               "Q": {"type": "number", "minimum": 2.5, "exclusiveMinimum": True}}}),
         runs=SCH, main=SHEAD + """
fn main() {
    for (n, b) in [("P", 0.0), ("Q", 2.5)] {
        let s = schema(n);
        expect(n, s["exclusiveMinimum"] == serde_json::json!(b), &s);
    }
}
"""),
    dict(id="c19-nullable-listed", property="C19",
         needs="a nullable schema with a type and an enumeration that lists null, inside a property",
         breaks="Null is no longer valid for a nullable boolean whose enumeration lists it.",
         edits=[(SC, "                instance_type: instance_type(schemars::schema::InstanceType::Boolean, nullable),\n",
                 "                instance_type: instance_type(\n                    schemars::schema::InstanceType::Boolean,\n"
                 "                    nullable && enumeration.is_empty(),\n                ),\n")],
         doc=doc({"/n": {"get": op()}}, components={"schemas": {"P": {"type": "boolean", "nullable": True, "enum": [True, None]},
                                                               "Q": {"type": "boolean", "nullable": True}}}),
         runs=SCH, main=SHEAD + """
fn main() {
    for n in ["P", "Q"] {
        let s = schema(n);
        let null = s["type"].as_array().map(|a| a.contains(&serde_json::json!("null"))).unwrap_or(s["type"].is_null());
        expect(n, null, &s);
    }
}
"""),
    dict(id="c20-undeclared-tag", property="C20",
         needs="the separate style, a document that declares some tags, and an operation with a tag it does not declare",
         breaks="An operation is not reachable through a tag that the document uses but does not declare; with no other tag it is not reachable at all.",
         edits=[(ME, "                method.tags.iter().for_each(|tag| {\n",
                 "                let known = |tag: &&String| tag_info.is_empty() || tag_info.contains_key(*tag);\n"
                 "                method.tags.iter().filter(known).for_each(|tag| {\n")],
         doc=doc({"/n": {"get": op(tags=["declared"])}, "/m": {"get": op("other", tags=["stray", "declared"])}}, tags=[{"name": "declared"}]),
         runs=[{"style": "separate", "want": ["sigs"]}], main=SHEAD + """
fn main() {
    let t = std::fs::read_to_string("../out.ndjson").unwrap();
    let v: serde_json::Value = serde_json::from_str(t.lines().next().unwrap()).unwrap();
    let has = |tr: &str, f: &str| v["sigs"].as_array().unwrap().iter().any(|s| s[0] == format!("trait {tr}") && s[1] == f);
    for (tr, f) in [("ClientDeclaredExt", "op"), ("ClientDeclaredExt", "other"), ("ClientStrayExt", "other")] {
        expect(f, has(tr, f), &v["sigs"]);
    }
}
"""),
    dict(id="c20-trait-order", property="C20",
         needs="the separate style and several tags; one run of the generator compared with another",
         breaks="The extension traits are written in an order that changes from run to run.",
         edits=[(ME, "        let mut ext = BTreeMap::new();\n", "        let mut ext = std::collections::HashMap::new();\n")],
         doc=doc({"/%s" % t: {"get": op("op_" + t, tags=[t])} for t in ("one", "two", "three", "four", "five")}),
         runs=[{"style": "separate", "want": ["hash"]}] * 12, main=SHEAD + """
fn main() {
    let t = std::fs::read_to_string("../out.ndjson").unwrap();
    let h: std::collections::BTreeSet<String> = t
        .lines()
        .map(|l| serde_json::from_str::<serde_json::Value>(l).unwrap()["hash"].as_str().unwrap().to_string())
        .collect();
    expect("one code", h.len() == 1, &h);
}
"""),
    dict(id="c17-value-prefix", property="C17", deps=MDEP,
         needs="an expectation on the last path parameter and a request whose value only starts with the expected one",
         breaks="A mock that expects id v answers a request for v1 as well.",
         edits=[(TE, """                Component::Parameter(_) => ".*".to_string(),
            })
            .collect::<String>();
        format!("^{}$", inner)""", """                Component::Parameter(_) => ".*".to_string(),
            })
            .collect::<String>();
        format!("^{}", inner)""")],
         doc=doc({"/a/{x}/b/{y}": {"get": op(params=[prm("x", "path"), prm("y", "path")], responses=NONE)}}), runs=MOCK, main=MHEAD + """
fn main() {
    let server = MockServer::start();
    for (x, y, want) in [("v", "w", true), ("v", "w1", false), ("v1", "w", false), ("v", "xw", false)] {
        let req = httpmock::request("GET", &format!("/a/{x}/b/{y}"), vec![], vec![]);
        let m = server.op(|when, _then| {
            when.x("v").y("w");
        });
        expect(&format!("x {x} y {y}"), m.accepts(&req) == want, m.accepts(&req));
    }
}
"""),
    dict(id="c17-absent-or-empty", property="C17", deps=MDEP,
         needs="an optional query parameter expected to be absent and a request that carries it with an empty value",
         breaks="A mock that expects an optional query parameter to be absent answers a request that carries it empty.",
         edits=[("progenitor-impl/src/httpmock.rs", """                                                qs.iter().find(
                                                    |(key, _)| key == #name)
""", """                                                qs.iter().find(
                                                    |(key, v)| key == #name && v != "")
""")],
         doc=doc({"/a": {"get": op(params=[prm("q", "query"), prm("r", "query", True)], responses=NONE)}}), runs=MOCK, main=MHEAD + """
fn main() {
    let server = MockServer::start();
    for (t, want) in [("/a?r=1", true), ("/a?q=&r=1", false), ("/a?q=2&r=1", false)] {
        let req = httpmock::request("GET", t, vec![], vec![]);
        let m = server.op(|when, _then| {
            when.q(None::<&str>).r("1");
        });
        expect(t, m.accepts(&req) == want, m.accepts(&req));
    }
}
"""),
    dict(id="c18-member-hidden", property="C18", deps=CDEP,
         needs="a required body member whose flag is taken by a parameter, and no other member that needs the whole body",
         breaks="The command no longer asks for --json-body although a required member cannot be given as a flag: the line is accepted and the call fails.",
         edits=[("progenitor-impl/src/cli.rs", """        } else if required {
            args.body_required()
        }
""", """        } else if required && !scalar {
            args.body_required()
        }
""")],
         doc=doc({"/a/{name}": {"post": op(params=[prm("name", "path")], responses=NONE, requestBody={"required": True, "content": {"application/json": {"schema": {"$ref": "#/components/schemas/B"}}}})}},
                 components={"schemas": {"B": {"type": "object", "required": ["name"], "properties": {"name": STR, "size": INT}}}}), runs=CLI, main=CHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![resp(204, "", "")]);
    let r = run(&s.url, &["--name=n", "--size=3"]).await;
    expect("a line without the member `name` is refused", r.is_none(), r);
    std::fs::write("b.json", "{\\"name\\":\\"m\\"}").unwrap();
    let r = run(&s.url, &["--name=n", "--json-body=b.json"]).await;
    let _ = std::fs::remove_file("b.json");
    expect("with the body it is sent", r == Some(true) && s.seen().len() == 1 && s.seen()[0].body == b"{\\"name\\":\\"m\\"}", (r, s.seen()));
}
"""),
    dict(id="c18-first-page-name", property="C18", deps=CDEP,
         needs="a paginated operation whose first page needs a query parameter that is called differently in Rust",
         breaks="The flag of a parameter required for the first page is not marked as required when its API name is not its Rust name.",
         edits=[("progenitor-impl/src/cli.rs", ".map_or(false, |required| required.contains(&param.api_name));", ".map_or(false, |required| required.contains(&param.name));")],
         doc=doc({"/a": {"get": op(params=[prm("sortBy", "query"), prm("limit", "query", None, {"type": "integer", "format": "uint32", "minimum": 1}), prm("page_token", "query")],
                                   responses={"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/P"}}}}}, **{"x-dropshot-pagination": {"required": ["sortBy"]}})}},
                 components={"schemas": {"P": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": STR}, "next_page": STR}}}}), runs=CLI, main=CHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "{\\"items\\":[\\"x\\"]}")]);
    let r = run(&s.url, &["--limit=1"]).await;
    expect("a line without what the first page needs is refused", r.is_none(), r);
    let r = run(&s.url, &["--sort-by=v"]).await;
    expect("with it the list is shown", r == Some(true) && *LOG.lock().unwrap() == ["element \\"x\\"", "end"], (r, LOG.lock().unwrap().clone()));
}
"""),
    dict(id="c01-long-value", property="C01",
         needs="a path value longer than 1024 bytes with a multi-byte character across a 1024-byte boundary",
         breaks="Long values are encoded piece by piece and characters that straddle two pieces turn into replacement characters.",
         edits=[(CL, "    percent_encoding::utf8_percent_encode(pc, PATH_SET).to_string()\n",
                 "    // Bound the size of the intermediate strings.\n"
                 "    pc.as_bytes()\n        .chunks(1024)\n        .map(String::from_utf8_lossy)\n"
                 "        .map(|piece| percent_encoding::utf8_percent_encode(&piece, PATH_SET).to_string())\n"
                 "        .collect()\n")],
         main=HEAD + """
fn main() {
    use progenitor_client::encode_path;
    let e = encode_path(&"\\u{e9}".repeat(512));
    expect("short value", e == "%C3%A9".repeat(512), e.len());
    let e = encode_path(&format!("a{}", "\\u{e9}".repeat(1000)));
    expect("long value", e == format!("a{}", "%C3%A9".repeat(1000)), e.len());
}
"""),
    dict(id="c02-u64-wraps", property="C02",
         needs="an unsigned 64-bit query value above i64::MAX, inside a list",
         breaks="Unsigned query values above i64::MAX are sent as negative numbers.",
         edits=[(CL, "    serialize_scalar!(serialize_u64, u64);\n",
                 "    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {\n"
                 "        // The URL encoding of both integer types is the same.\n"
                 "        self.serialize_i64(v as i64)\n    }\n")],
         main=HEAD + """
use progenitor_client::QueryParam;
fn q<T: serde::Serialize>(n: &str, v: &T) -> String {
    let c = reqwest::Client::new();
    c.get("http://h/").query(&QueryParam::new(n, v)).build().unwrap().url().query().unwrap_or("").to_string()
}
fn main() {
    let e = q("x", &(1u64 << 62));
    expect("large value", e == "x=4611686018427387904", &e);
    let e = q("x", &u64::MAX);
    expect("largest value", e == "x=18446744073709551615", &e);
}
"""),
    dict(id="c03-form-unencodable", property="C03",
         needs="a form body with a member that has no form encoding, such as a nested list",
         breaks="A form body that cannot be encoded is sent as an empty body instead of making the call fail.",
         edits=[(CL, "                serde_urlencoded::to_string(body)\n"
                 "                    .map_err(|_| Error::InvalidRequest(\"failed to serialize body\".to_string()))?,\n",
                 "                serde_urlencoded::to_string(body).unwrap_or_default(),\n")],
         main=HEAD + """
use progenitor_client::{Error, RequestBuilderExt};
fn main() {
    let c = reqwest::Client::new();
    let form = |v: serde_json::Value| -> Result<reqwest::RequestBuilder, Error<()>> { c.post("http://h/").form_urlencoded(&v) };
    expect("flat", form(serde_json::json!({"a": "b c"})).unwrap().build().unwrap().body().unwrap().as_bytes() == Some(b"a=b+c"), "body");
    let r = form(serde_json::json!({"a": ["b", "c"]}));
    expect("nested", matches!(&r, Err(Error::InvalidRequest(_))), r.is_ok());
}
"""),
    dict(id="c04-invalid-skipped", property="C04",
         needs="an optional header parameter given a value that cannot be a header value",
         breaks="An optional header whose value is not a valid header value is silently left out and the request is sent without it.",
         edits=[(ME, """                            if let Some(value) = #hn_ident {
                                #header_map_ident.append(
                                    #hn,
                                    value.to_string().try_into()?
                                );
                            }
""", """                            if let Some(Ok(value)) = #hn_ident
                                .map(|v| ::reqwest::header::HeaderValue::try_from(v.to_string()))
                            {
                                #header_map_ident.append(#hn, value);
                            }
""")],
         doc=doc({"/n": {"get": op(params=[prm("x-note", "header", False)])}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\""), json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op(Some("v")).await.unwrap();
    let e = c.op(Some("a\\nb")).await;
    expect("given", s.seen()[0].header("x-note") == ["v"], &s.seen()[0]);
    expect("invalid", matches!(&e, Err(api::Error::InvalidRequest(_))), e.is_ok());
    expect("nothing sent", s.seen().len() == 1, s.seen().len());
}
"""),
    dict(id="c05-default-popped", property="C05",
         needs="a declared success status next to a default response, and an answer with another success status",
         breaks="With a default response next to an explicit success status, another success status is returned as an error.",
         edits=[(ME, """                    status_code: OperationResponseStatus::Range(2),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,
""", """                    status_code:
                        OperationResponseStatus::Range(2)
                        | OperationResponseStatus::Code(200..=299),
                    ..
                },
                OperationResponse {
                    status_code: OperationResponseStatus::Default,
""")],
         doc=doc({"/n": {"get": op(responses={**OK, "default": OK["200"]})}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    for st in [200u16, 202, 404] {
        let s = serve(vec![json(st, "\\"v\\"")]);
        let c = api::Client::new(&s.url);
        let r = c.op().await;
        let ok = match &r {
            Ok(v) => st < 300 && v.status().as_u16() == st,
            Err(api::Error::ErrorResponse(v)) => st >= 300 && v.status().as_u16() == st,
            Err(_) => false,
        };
        expect(&format!("status {st}"), ok, r.is_ok());
    }
}
"""),
    dict(id="c06-bom", property="C06",
         needs="a typed response whose body starts with a byte order mark",
         breaks="A body that starts with a byte order mark, which is not JSON, is decoded, and a bad one is reported without its first bytes.",
         edits=[(CL, "        let inner =\n            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;\n",
                 "        let full = match full.strip_prefix(b\"\\xef\\xbb\\xbf\") {\n"
                 "            Some(text) => full.slice_ref(text),\n            None => full,\n        };\n"
                 "        let inner =\n            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;\n")],
         main=HEAD + """
use progenitor_client::{Error, ResponseValue};
#[tokio::main]
async fn main() {
    for (body, good) in [("\\"x\\"", true), ("\\u{feff}\\"x\\"", false), ("\\u{feff}1", false), ("x\\u{feff}", false)] {
        let s = serve(vec![json(200, body)]);
        let r = reqwest::get(&s.url).await.unwrap();
        let v: Result<ResponseValue<String>, Error<()>> = ResponseValue::from_response(r).await;
        let ok = match &v {
            Ok(_) => good,
            Err(Error::InvalidResponsePayload(b, _)) => !good && &b[..] == body.as_bytes(),
            Err(_) => false,
        };
        expect(&format!("body {body:?}"), ok, v);
    }
}
"""),
    dict(id="c07-held-chunk", property="C07",
         needs="a body that arrives in small chunks and whose connection then breaks",
         breaks="Small chunks are held back to be joined, and what is held is lost when the connection breaks.",
         edits=[(CL, "            inner: ByteStream(Box::pin(response.bytes_stream())),\n",
                 "            inner: ByteStream(Box::pin(Joined {\n                inner: Box::pin(response.bytes_stream()),\n"
                 "                held: Vec::new(),\n            })),\n"),
                (CL, "impl ResponseValue<()> {\n",
                 "/// Joins small chunks.\nstruct Joined {\n    inner: InnerByteStream,\n    held: Vec<u8>,\n}\n\n"
                 "impl Stream for Joined {\n    type Item = reqwest::Result<Bytes>;\n\n"
                 "    fn poll_next(\n        mut self: std::pin::Pin<&mut Self>,\n        cx: &mut std::task::Context<'_>,\n"
                 "    ) -> std::task::Poll<Option<Self::Item>> {\n        use std::task::Poll;\n"
                 "        while self.held.len() < 512 {\n"
                 "            match self.inner.as_mut().poll_next(cx) {\n"
                 "                Poll::Ready(Some(Ok(chunk))) => self.held.extend_from_slice(&chunk),\n"
                 "                Poll::Ready(Some(Err(e))) => return Poll::Ready(Some(Err(e))),\n"
                 "                Poll::Ready(None) if self.held.is_empty() => return Poll::Ready(None),\n"
                 "                Poll::Ready(None) => break,\n"
                 "                Poll::Pending => return Poll::Pending,\n"
                 "            }\n        }\n"
                 "        let held = std::mem::take(&mut self.held);\n"
                 "        Poll::Ready(Some(Ok(held.into())))\n    }\n}\n\n"
                 "impl ResponseValue<()> {\n")],
         main=HEAD + """
use futures::StreamExt;
use progenitor_client::ResponseValue;
#[tokio::main]
async fn main() {
    for (tail, clean) in [("0\\r\\n\\r\\n", true), ("zz", false)] {
        let s = serve(vec![format!("HTTP/1.1 200 OK\\r\\ntransfer-encoding: chunked\\r\\nconnection: close\\r\\n\\r\\n3\\r\\nabc\\r\\n3\\r\\ndef\\r\\n{tail}").into_bytes()]);
        let r = reqwest::get(&s.url).await.unwrap();
        let mut st = ResponseValue::stream(r).into_inner_stream();
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        let (mut got, mut err) = (vec![], false);
        while let Some(c) = st.next().await {
            match c {
                Ok(c) => got.extend_from_slice(&c),
                Err(_) => { err = true; break }
            }
        }
        expect(&format!("tail {tail:?}"), got == b"abcdef" && err == !clean, (got, err));
    }
}
"""),
    dict(id="c08-same-text", property="C08",
         needs="a cause chain with two neighbouring causes of the same text",
         breaks="A cause whose text equals the one listed before it is left out of the alternate form.",
         edits=[(CL, "            let mut src = self.source().and_then(|e| e.source());\n            while let Some(s) = src {\n                write!(f, \": {s}\")?;\n",
                 "            let mut src = self.source().and_then(|e| e.source());\n            let mut last = String::new();\n            while let Some(s) = src {\n"
                 "                let text = s.to_string();\n                if text != last {\n                    write!(f, \": {text}\")?;\n                }\n                last = text;\n")],
         deps='http = "1"\n',
         main=HEAD + """
use progenitor_client::{Error, ResponseValue};
use std::error::Error as _;
#[derive(Debug)]
struct Cause(&'static str, Option<Box<Cause>>);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_ref().map(|c| &**c as _) }
}
#[tokio::main]
async fn main() {
    for texts in [["a", "b"], ["a", "a"]] {
        let c = Cause(texts[0], Some(Box::new(Cause(texts[1], None))));
        let body = reqwest::Body::wrap_stream(futures::stream::once(async move { Err::<Vec<u8>, _>(c) }));
        let r = reqwest::Response::from(http::Response::builder().body(body).unwrap());
        let e: Error<()> = ResponseValue::<String>::from_response(r).await.unwrap_err();
        let (mut want, mut s) = (format!("{e}"), e.source().and_then(|e| e.source()));
        while let Some(c) = s {
            want += &format!(": {c}");
            s = c.source();
        }
        expect(&format!("{texts:?}"), format!("{e:#}") == want, format!("{e:#}"));
    }
}
"""),
    dict(id="c09-empty-page", property="C09",
         needs="a page in the middle that has a token but no items, with the positional stream",
         breaks="A later page without items ends the positional stream although it carries a token.",
         edits=[(ME, """                                            Some((
                                                futures::stream::iter(
                                                    page.items
                                                ).map(Ok),
                                                page.next_page,
                                            ))
                                        })
                                        .await
                                    }
                                },
                            )
                            .try_flatten();

                            #first_ident.chain(rest)
""", """                                            let last = page.items.is_empty();
                                            Some((
                                                futures::stream::iter(
                                                    page.items
                                                ).map(Ok),
                                                page.next_page.filter(|_| !last),
                                            ))
                                        })
                                        .await
                                    }
                                },
                            )
                            .try_flatten();

                            #first_ident.chain(rest)
""")],
         doc=doc({"/n": {"get": op(params=[prm("limit", "query", False, INT), prm("page_token", "query", False)],
                                   responses={"200": {"description": "ok", "content": {"application/json": {
                                       "schema": {"$ref": "#/components/schemas/Page"}}}}},
                                   **{"x-dropshot-pagination": {"required": []}})}},
                 components={"schemas": {"Page": {"type": "object", "required": ["items"], "properties": {
                     "items": {"type": "array", "items": STR}, "next_page": {"type": "string", "nullable": True}}}}}),
         runs=POS,
         main=IHEAD + """
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, r#"{"items":["a"],"next_page":"t1"}"#), json(200, r#"{"items":[],"next_page":"t2"}"#), json(200, r#"{"items":["b"]}"#)]);
    let c = api::Client::new(&s.url);
    let got: Vec<_> = c.op_stream(None).map(|r| r.unwrap()).collect().await;
    expect("items", got == ["a", "b"], got);
}
"""),
    dict(id="c10-post-on-error", property="C10",
         needs="a post-hook and an exchange that fails",
         breaks="The post-hook does not run when the exchange failed.",
         edits=[(ME, """            quote! {
                (#hook)(#inner &#result_ident);
            }
""", """            quote! {
                if #result_ident.is_ok() {
                    (#hook)(#inner &#result_ident);
                }
            }
""")],
         doc=doc({"/n": {"get": op()}}),
         runs=[{"style": "positional", "out": "api.rs", "settings": {"post_hook": "crate::post"}}],
         main=IHEAD + """
use std::sync::Mutex;
static LOG: Mutex<Vec<bool>> = Mutex::new(vec![]);
pub fn post(r: &Result<reqwest::Response, reqwest::Error>) {
    LOG.lock().unwrap().push(r.is_ok());
}
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\""), b"garbage\\r\\n\\r\\n".to_vec()]);
    let c = api::Client::new(&s.url);
    let a = c.op().await.is_ok();
    let b = c.op().await.is_ok();
    expect("outcomes", a && !b, (a, b));
    let l = LOG.lock().unwrap().clone();
    expect("hook runs", l == [true, false], l);
}
"""),
    dict(id="c11-bad-optional-unset", property="C11",
         needs="an optional parameter whose last value did not convert",
         breaks="An optional parameter given a value that does not convert is treated as unset, and the request is sent.",
         edits=[(ME, """                                        self.#param_name = value.try_into()
                                            .map(Some)
                                            .map_err(|_| #err_msg.to_string());
                                        self
""", """                                        self.#param_name = value.try_into()
                                            .map(Some)
                                            .or_else(|_| match &self.#param_name {
                                                Ok(Some(_)) => Err(#err_msg.to_string()),
                                                _ => Ok(None),
                                            });
                                        self
""")],
         doc=doc({"/n": {"get": op(params=[prm("n", "query", False, {"type": "integer", "format": "uint8", "minimum": 0})])}}), runs=BLD,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op().n(7u8).send().await.unwrap();
    let e = c.op().n(7u8).n(300i64).send().await;
    expect("second value invalid", matches!(e, Err(api::Error::InvalidRequest(_))), e.is_ok());
    let e = c.op().n(300i64).send().await;
    expect("only value invalid", matches!(e, Err(api::Error::InvalidRequest(_))), e.is_ok());
    expect("requests", s.seen().len() == 1, s.seen().len());
}
"""),
    dict(id="c12-headers-instead", property="C12",
         needs="a websocket operation that also declares header parameters",
         breaks="The upgrade request of an operation with header parameters lacks the Connection and Upgrade headers.",
         edits=[(ME, """                .header(::reqwest::header::CONNECTION, "Upgrade")
                .header(::reqwest::header::UPGRADE, "websocket")
                .header(::reqwest::header::SEC_WEBSOCKET_VERSION, "13")
""", """                #upgrade_hdrs
                .header(::reqwest::header::SEC_WEBSOCKET_VERSION, "13")
"""), (ME, "        let websock_hdrs = if method.dropshot_websocket {\n",
       "        // The caller's own headers come first.\n        let upgrade_hdrs = headers.is_empty().then(|| {\n            quote! {\n"
       "                .header(::reqwest::header::CONNECTION, \"Upgrade\")\n                .header(::reqwest::header::UPGRADE, \"websocket\")\n            }\n        });\n"
       "        let websock_hdrs = if method.dropshot_websocket {\n")],
         doc=doc({"/a": {"get": op("plain", responses={"default": {"description": "d"}}, **{"x-dropshot-websocket": {}})},
                  "/b": {"get": op("heads", params=[prm("x-note", "header", False)], responses={"default": {"description": "d"}}, **{"x-dropshot-websocket": {}})}}),
         runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "1"), json(200, "1")]);
    let c = api::Client::new(&s.url);
    let _ = c.plain().await;
    let _ = c.heads(Some("v")).await;
    for r in s.seen() {
        expect("upgrade", r.header("upgrade") == ["websocket"] && r.header("connection") == ["Upgrade"], &r);
    }
}
"""),
    dict(id="c13-id-per-tag", property="C13",
         needs="the same operation ID on two operations with different tags",
         breaks="Operation IDs are compared only within one tag, so a document with a duplicate ID is accepted.",
         edits=[(LI, "                        if !opids.insert(oid.to_string()) {\n",
                 "                        if !opids.insert((o.tags.first(), oid.to_string())) {\n")],
         doc=doc({"/a": {"get": op("same", tags=["x"])}, "/b": {"get": op("same", tags=["y"])}}),
         runs=[{"style": "positional", "expect": "err"}, {"style": "builder", "expect": "err"}],
         main="fn main() {}\n"),
    dict(id="c14-inner-slashes", property="C14",
         needs="repeated slashes in the middle of the literal text of a template",
         breaks="Repeated slashes are collapsed only at the start of a literal, so /a//b is requested as it is.",
         edits=[(TE, "                } else if c != '/' || !a.ends_with('/') {\n", "                } else if c != '/' || a != \"/\" {\n")],
         doc=doc({"//v1//{id}//items": {"get": op(params=[prm("id", "path")])}, "/v1/a//b": {"get": op("two")}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\""), json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op("x").await.unwrap();
    c.two().await.unwrap();
    expect("path", s.seen()[0].target() == "/v1/x/items", s.seen());
    expect("path", s.seen()[1].target() == "/v1/a/b", s.seen());
}
"""),
    dict(id="c15-combining-start", property="C15",
         needs="a name that starts with a combining character that counts as alphabetic, such as U+0345",
         breaks="Such a name becomes something that is not an identifier, and generating the client panics.",
         edits=[(UT, "        Some(c) if is_xid_start(c) => out,\n", "        Some(c) if c.is_alphabetic() => out,\n")],
         doc=doc({"/n": {"get": op(params=[prm("plain", "query"), prm("\u0345x", "query")])}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op(Some("a"), Some("b")).await.unwrap();
    let t = s.seen()[0].target().to_string();
    expect("query", t.ends_with("%CD%85x=b"), t);
}
"""),
    dict(id="c16-snake-order", property="C16",
         needs="query parameters whose API names sort differently than their Rust names, such as Zeta and alpha",
         breaks="Positional query arguments are ordered by their Rust names instead of their API names.",
         edits=[(ME, """             kind: a_kind,
             api_name: a_name,
""", """             kind: a_kind,
             api_name: a_name,
             name: a_ident,
"""), (ME, """             kind: b_kind,
             api_name: b_name,
""", """             kind: b_kind,
             api_name: b_name,
             name: b_ident,
"""), (ME, """                (OperationParameterKind::Query(_), OperationParameterKind::Query(_)) => {
                    a_name.cmp(b_name)
""", """                (OperationParameterKind::Query(_), OperationParameterKind::Query(_)) => {
                    a_ident.cmp(b_ident)
""")],
         doc=doc({"/n": {"get": op(params=[prm("alpha", "query"), prm("Zeta", "query"), prm("beta", "query", False)])}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let s = serve(vec![json(200, "\\"r\\"")]);
    let c = api::Client::new(&s.url);
    c.op(Some("first"), Some("second"), Some("third")).await.unwrap();
    let t = s.seen()[0].target().to_string();
    expect("arguments", t.contains("Zeta=first") && t.contains("alpha=second") && t.contains("beta=third"), t);
}
"""),

    dict(id="c21-derive-segment", property="C21",
         needs="two extra derives whose paths end in the same name, such as a::Tagged and b::Tagged",
         breaks="with_derive drops a derive when an earlier one has the same last path segment.",
         edits=[(LI, """        self.extra_derives.push(derive.to_string());
""", """        let derive = derive.to_string();
        let name = |d: &str| d.rsplit("::").next().map(|n| n.trim().to_string());
        if !self.extra_derives.iter().any(|d| name(d) == name(&derive)) {
            self.extra_derives.push(derive);
        }
""")],
         doc=doc({"/x": {"get": op()}}, components={"schemas": {"Thing": {"type": "object", "properties": {"a": STR}}}}),
         runs=[{"style": "positional", "out": "api.rs", "want": ["text"], "settings": {"derives": ["zz_one::Tagged", "zz_two::Tagged"]}}],
         main=HEAD + """
fn main() {
    let t = std::fs::read_to_string("src/api.rs").unwrap().replace(' ', "");
    expect("first derive", t.contains("zz_one::Tagged"), "");
    expect("second derive", t.contains("zz_two::Tagged"), "");
}
"""),
    dict(id="c21-macro-derives-rename", property="C21",
         needs="a patch in the macro that adds derives without renaming",
         breaks="generate_api! applies the derives of a patch only when the patch also renames the type.",
         edits=[(MA, """        a.rename.iter().for_each(|rename| {
            s.with_rename(rename);
        });
        a.derives.iter().for_each(|derive| {
            s.with_derive(derive.to_token_stream().to_string());
        });
""", """        a.rename.iter().for_each(|rename| {
            s.with_rename(rename);
            a.derives.iter().for_each(|derive| {
                s.with_derive(derive.to_token_stream().to_string());
            });
        });
""")],
         script="""@M
rc, out = program(doc({"/x": {"get": op(schema={"$ref": "#/components/schemas/Thing"})}}, {"Thing": {"type": "object", "properties": {"a": STR}}}), '''
mod api {
    progenitor::generate_api!(spec = "doc.json", patch = { Thing = { derives = [Hash] } });
}
fn main() {
    println!("{:?}", api::Client::new("http://h").baseurl());
    let _ = <api::types::Thing as zz::Told>::PATCH;
}
mod zz { pub trait Told { const PATCH: (); } impl<T: std::hash::Hash> Told for T { const PATCH: () = (); } }
''')
expect("the patch's derive is applied", rc == 0, out[-800:])
"""),
    dict(id="c22-no-truncate", property="C22",
         needs="generating a smaller client into the directory of an earlier one",
         breaks="Files are overwritten without being truncated, so the tail of an earlier, longer file survives.",
         edits=[(CA, """        .truncate(true)
        .write(true)
""", """        .write(true)
""")],
         script="""@S
build("cargo-shim")
d = lambda n: doc({"/x%d" % k: {"get": op("op%d" % k)} for k in range(n)})
command(d(6), T + "/out")
command(d(1), T + "/out")
command(d(1), T + "/fresh")
for f in ("Cargo.toml", "src/lib.rs"):
    expect("the same " + f, open(T + "/out/" + f).read() == open(T + "/fresh/" + f).read())
"""),
    dict(id="c22-stale-client", property="C22",
         needs="an older copy of the included client already in the directory",
         breaks="The included client source is only written when the file does not exist yet.",
         edits=[(CA, """                save(clientrs, progenitor_client_code)?;
""", """                if !clientrs.exists() {
                    save(clientrs, progenitor_client_code)?;
                }
""")],
         script="""@S
build("cargo-shim")
os.makedirs(T + "/out/src")
with open(T + "/out/src/progenitor_client.rs", "w") as f:
    f.write("// from an older version\\n")
command(doc({"/x": {"get": op()}}), T + "/out", "--include-client", "true")
got = open(T + "/out/src/progenitor_client.rs").read()
expect("the client's source", got == open(REPO + "/progenitor-client/src/progenitor_client.rs").read(), got[:80])
"""),
    dict(id="c22-uuid-or-pattern", property="C22",
         needs="a document with both a pattern-constrained string and a UUID",
         breaks="The uuid dependency is left out of Cargo.toml when the regress dependency is needed.",
         edits=[(CA, """        deps.push(format!("regress = \\"{}\\"", DEPENDENCIES.regress));
    }
    if type_space.uses_uuid() {
""", """        deps.push(format!("regress = \\"{}\\"", DEPENDENCIES.regress));
    } else if type_space.uses_uuid() {
""")],
         script="""@S
build("cargo-shim")
command(doc({"/x": {"get": op(schema={"$ref": "#/components/schemas/Thing"})}},
            {"Thing": {"type": "object", "required": ["a", "b"], "properties": {"a": {"type": "string", "format": "uuid"}, "b": {"$ref": "#/components/schemas/Pat"}}},
             "Pat": {"type": "string", "pattern": "^a+$"}}), T + "/out", "--include-client", "false")
deps = tomllib.load(open(T + "/out/Cargo.toml", "rb"))["dependencies"]
expect("uuid dependency", "uuid" in deps and "regress" in deps, sorted(deps))
"""),
    dict(id="c22-last-websocket", property="C22",
         needs="a document whose websocket operation is followed by another operation",
         breaks="Only the last operation decides whether the client needs the websocket dependencies.",
         edits=[(ME, """        if dropshot_websocket {
            self.uses_websockets = true;
        }
""", """        self.uses_websockets = dropshot_websocket;
""")],
         script="""@S
build("cargo-shim")
ws = {"operationId": "ws", "x-dropshot-websocket": {}, "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}
command(doc({"/a": {"get": ws}, "/b": {"get": op()}}), T + "/out", "--include-client", "false")
deps = tomllib.load(open(T + "/out/Cargo.toml", "rb"))["dependencies"]
expect("base64 and rand", "base64" in deps and "rand" in deps, sorted(deps))
"""),
    dict(id="c21-crate-rename-kept", property="C21",
         needs="setting the same crate twice, first with a rename and then without",
         breaks="with_crate keeps an earlier rename when the later call gives none.",
         edits=[(LI, """        self.crates.insert(
            crate_name.to_string(),
            CrateSpec {
                version,
                rename: rename.cloned(),
            },
        );
""", """        let spec = self
            .crates
            .entry(crate_name.to_string())
            .or_insert(CrateSpec {
                version: version.clone(),
                rename: None,
            });
        spec.version = version;
        spec.rename = rename.cloned().or(spec.rename.take());
""")],
         script="""@S
build("gen")
c = lambda v, b: {"ev": "call", "o": {"set": "crate", "key": "foo", "a": v, "b": b}}
jobs = [{"doc": json.dumps(doc({"/x": {"get": op()}})), "runs": [{"style": "history", "script": [c("1.0.0", "bar"), c("2.0.0", ""), {"ev": "new"}]},
                                                             {"style": "history", "script": [c("2.0.0", ""), {"ev": "new"}]}]}]
json.dump(jobs, open(T + "/jobs.json", "w"))
subprocess.run([os.environ["CARGO_TARGET_DIR"] + "/debug/gen", T + "/jobs.json", T + "/out.ndjson"], check=True)
a, b = [json.loads(l)["outs"][0] for l in open(T + "/out.ndjson")]
expect("the later call decides", a["told"] == b["told"], a["told"])
"""),
    dict(id="c23-optional-cookie", property="C23",
         needs="a cookie parameter that is not required, inherited from the path item",
         breaks="Optional cookie parameters are silently left out instead of refusing the document.",
         edits=[(ME, """            .values()
            .map(|parameter| {
                match parameter {
""", """            .values()
            .filter(|parameter| {
                !matches!(parameter,
                    openapiv3::Parameter::Cookie { parameter_data, .. } if !parameter_data.required)
            })
            .map(|parameter| {
                match parameter {
""")],
         doc=doc({"/x": {"parameters": [prm("sid", "cookie", False)], "get": op()}}),
         runs=[{"style": "positional", "expect": "err"}],
         main=HEAD + "fn main() {}\n"),
    dict(id="c23-json-suffix", property="C23",
         needs="a request body with a vendor media type ending in +json",
         breaks="Bodies of media types such as application/vnd.x+json are sent as application/json.",
         edits=[(ME, """            "application/json" => Ok(Self::Json),
""", """            "application/json" => Ok(Self::Json),
            s if s.starts_with("application/") && s.ends_with("+json") => Ok(Self::Json),
""")],
         doc=doc({"/x": {"put": op(requestBody={"content": {"application/vnd.x.v2+json": {"schema": STR}}})}}),
         runs=[{"style": "builder", "expect": "err"}],
         main=HEAD + "fn main() {}\n"),
    dict(id="c23-text-limits", property="C23",
         needs="a plain-text body whose schema, behind a reference, limits the text",
         breaks="Limits on plain-text bodies are ignored instead of refusing the document.",
         edits=[(ME, """                                openapiv3::StringType {
                                    format: openapiv3::VariantOrUnknownOrEmpty::Empty,
                                    pattern: None,
                                    enumeration,
                                    min_length: None,
                                    max_length: None,
                                },
""", """                                openapiv3::StringType {
                                    format: openapiv3::VariantOrUnknownOrEmpty::Empty,
                                    enumeration,
                                    ..
                                },
""")],
         doc=doc({"/x": {"put": op(requestBody={"content": {"text/plain": {"schema": {"$ref": "#/components/schemas/Line"}}}})}},
                 components={"schemas": {"Line": {"type": "string", "maxLength": 80}}}),
         runs=[{"style": "positional", "expect": "err"}],
         main=HEAD + "fn main() {}\n"),
    dict(id="c24-multiline-param", property="C24",
         needs="a parameter whose description has more than one line",
         breaks="Only the first line of parameter descriptions is documented.",
         edits=[(ME, """            if let Some(description) = &param.description {
                buf.push_str(": ");
                buf.push_str(description);
            }
            buf.push('\\n');
        }
    }

    buf
}

fn make_stream_doc_comment""", """            if let Some(description) = param.description.as_deref().and_then(|d| d.lines().next()) {
                buf.push_str(": ");
                buf.push_str(description);
            }
            buf.push('\\n');
        }
    }

    buf
}

fn make_stream_doc_comment""")],
         doc=doc({"/x": {"get": op(params=[{**prm("q", "query", False), "description": "first\nsecondline"}])}}), runs=POS,
         main=HEAD + """
fn main() {
    let t = std::fs::read_to_string("src/api.rs").unwrap();
    assert!(t.contains("secondline"), "the rest of the description is missing");
}
"""),
    dict(id="c24-deprecated-text", property="C24",
         needs="an operation whose summary starts with the word Deprecated",
         breaks="Such operations are generated hidden from documentation, so the text changes the code.",
         edits=[(ME, """        let method_impl = quote! {
            #[doc = #doc_comment]
            pub async fn""", """        // Steer users away from operations that are on their way out.
        let hidden = method
            .summary
            .as_deref()
            .filter(|s| s.to_ascii_lowercase().starts_with("deprecated"))
            .map(|_| quote! { #[doc(hidden)] });
        let method_impl = quote! {
            #hidden
            #[doc = #doc_comment]
            pub async fn""")],
         doc=doc({"/x": {"get": op(summary="Deprecated: use y.")}}), runs=POS,
         main=HEAD + """
fn main() {
    let t = std::fs::read_to_string("src/api.rs").unwrap();
    assert!(!t.contains("hidden"), "the summary decides about the code");
}
"""),
    dict(id="c24-terms-instead", property="C24",
         needs="an API with both a description and terms of service",
         breaks="The terms of service are only documented if there is no description.",
         edits=[(LI, """                s.push_str(ss);
            }
            if let Some(ss) = &spec.info.terms_of_service {""", """                s.push_str(ss);
            } else if let Some(ss) = &spec.info.terms_of_service {""")],
         doc={**doc({"/x": {"get": op()}}), "info": {"title": "t", "version": "1", "description": "about", "termsOfService": "http://terms"}}, runs=BLD,
         main=HEAD + """
fn main() {
    let t = std::fs::read_to_string("src/api.rs").unwrap();
    assert!(t.contains("http://terms"), "the terms are missing");
}
"""),
    dict(id="c24-stream-body", property="C24",
         needs="a paginated operation in which only the page size is described",
         breaks="The documentation of the stream leaves out the argument that limits pages.",
         edits=[(ME, """        .filter(|param| param.api_name.as_str() != "page_token")
        .filter(|param| param.description.is_some())
        .count()
        > 0""", """        .filter(|param| !matches!(param.api_name.as_str(), "page_token" | "limit"))
        .filter(|param| param.description.is_some())
        .count()
        > 0""")],
         doc=doc({"/x": {"get": op(params=[{**prm("limit", "query", False, {"type": "integer"}), "description": "mostatonce"}, prm("page_token", "query", False)],
                                   responses={"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/ItemPage"}}}}}, **{"x-dropshot-pagination": {"required": []}})}},
                 components={"schemas": {"ItemPage": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": STR}, "next_page": {"type": "string", "nullable": True}}}}}),
         runs=POS,
         main=HEAD + """
fn main() {
    let t = std::fs::read_to_string("src/api.rs").unwrap();
    assert_eq!(t.matches("mostatonce").count(), 2, "once for the call, once for the stream");
}
"""),
    dict(id="c25-scratch", property="C25",
         needs="two calls on one thread, the answer of one arriving between two parts of the answer of the other",
         breaks="Bodies are collected in a buffer of the thread, so answers that arrive in turns are mixed up.",
         edits=[(CL, """        let full = response.bytes().await.map_err(Error::ResponseBodyError)?;
        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
""", """        // Reuse the allocation from one response to the next.
        thread_local! {
            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut response = response;
        SCRATCH.with(|buf| buf.borrow_mut().clear());
        while let Some(chunk) = response.chunk().await.map_err(Error::ResponseBodyError)? {
            SCRATCH.with(|buf| buf.borrow_mut().extend_from_slice(&chunk));
        }
        let full = SCRATCH.with(|buf| Bytes::copy_from_slice(&buf.borrow()));
        let inner =
            serde_json::from_slice(&full).map_err(|e| Error::InvalidResponsePayload(full, e))?;
""")],
         main="""
use progenitor_client::{Error, ResponseValue};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

async fn get(url: String) -> String {
    let r = reqwest::get(url).await.unwrap();
    let v: Result<ResponseValue<String>, Error<()>> = ResponseValue::from_response(r).await;
    v.map(|v| v.into_inner()).unwrap_or_else(|e| format!("failed: {e}"))
}
async fn accept(l: &tokio::net::TcpListener) -> tokio::net::TcpStream {
    let (mut c, _) = l.accept().await.unwrap();
    let mut b = [0; 4096];
    let _ = c.read(&mut b).await.unwrap();
    c
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://{}", l.local_addr().unwrap());
        let pause = || tokio::time::sleep(Duration::from_millis(100));
        let a = tokio::spawn(get(format!("{url}/a")));
        let mut ca = accept(&l).await;
        let b = tokio::spawn(get(format!("{url}/b")));
        let mut cb = accept(&l).await;
        let head = "HTTP/1.1 200 OK\\r\\ncontent-type: application/json\\r\\nconnection: close\\r\\ncontent-length: 8\\r\\n\\r\\n";
        ca.write_all(format!("{head}\\"aaa").as_bytes()).await.unwrap();
        pause().await;
        cb.write_all(format!("{head}\\"bbbbbb\\"").as_bytes()).await.unwrap();
        pause().await;
        ca.write_all(b"aaa\\"").await.unwrap();
        let (a, b) = (a.await.unwrap(), b.await.unwrap());
        println!("a: {a}, b: {b}");
        assert_eq!((a.as_str(), b.as_str()), ("aaaaaa", "bbbbbb"));
    });
}
"""),
    dict(id="c25-stream-slots", property="C25",
         needs="dozens of byte streams that were begun and then dropped before their end",
         breaks="Dropped byte streams keep counting as open, so that later ones wait for ever.",
         edits=[(CL, """            inner: ByteStream(Box::pin(response.bytes_stream())),
            status,
            headers,
        }
    }
}
""", """            inner: ByteStream(Box::pin(Metered {
                inner: Box::pin(response.bytes_stream()),
                open: false,
            })),
            status,
            headers,
        }
    }
}

/// Bodies that are being read at the moment.
static OPEN_BODIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const MAX_OPEN_BODIES: usize = 64;

/// A body that waits for its turn when too many are read at once.
struct Metered {
    inner: InnerByteStream,
    open: bool,
}

impl Stream for Metered {
    type Item = reqwest::Result<Bytes>;

    fn poll_next(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Self::Item>> {
        use std::sync::atomic::Ordering::SeqCst;
        if !self.open {
            if OPEN_BODIES.load(SeqCst) >= MAX_OPEN_BODIES {
                cx.waker().wake_by_ref();
                return std::task::Poll::Pending;
            }
            OPEN_BODIES.fetch_add(1, SeqCst);
            self.open = true;
        }
        let next = self.inner.as_mut().poll_next(cx);
        if matches!(next, std::task::Poll::Ready(None | Some(Err(_)))) {
            OPEN_BODIES.fetch_sub(1, SeqCst);
            self.open = false;
        }
        next
    }
}
""")],
         main=HEAD + """
use futures::StreamExt;
use progenitor_client::ResponseValue;
use std::time::Duration;
#[tokio::main]
async fn main() {
    let s = serve(vec![resp(200, "", "some bytes")]);
    for _ in 0..100 {
        let v = ResponseValue::stream(reqwest::get(&s.url).await.unwrap());
        let mut st = v.into_inner_stream();
        let first = tokio::time::timeout(Duration::from_secs(5), st.next()).await;
        let Ok(Some(Ok(b))) = first else { panic!("a stream gives nothing: {first:?}") };
        assert_eq!(&b[..], b"some bytes");
        // dropped here, before its end
    }
    println!("ok");
}
"""),
    dict(id="c25-url-cache", property="C25",
         needs="two clients with different base URLs in one program and an operation without path parameters",
         breaks="The URL of an operation without path parameters is kept from the first client that used it.",
         edits=[(TE, """        quote! {
            format!(#fmt, #client.baseurl, #(#components,)*)
        }
""", """        // A path without parameters need not be put together on every call.
        if self.names().is_empty() {
            return quote! {
                {
                    static URL: ::std::sync::OnceLock<String> = ::std::sync::OnceLock::new();
                    URL.get_or_init(|| format!(#fmt, #client.baseurl)).clone()
                }
            };
        }

        quote! {
            format!(#fmt, #client.baseurl, #(#components,)*)
        }
""")],
         doc=doc({"/n": {"get": op()}}), runs=POS,
         main=IHEAD + """
#[tokio::main]
async fn main() {
    let (a, b) = (serve(vec![json(200, "\\"a\\"")]), serve(vec![json(200, "\\"b\\"")]));
    let (ca, cb) = (api::Client::new(&a.url), api::Client::new(&b.url));
    let ra = ca.op().await.unwrap().into_inner();
    let rb = cb.op().await.unwrap().into_inner();
    expect("each asks its own server", (ra.as_str(), rb.as_str()) == ("a", "b"), (&ra, &rb));
}
"""),
]
for _p in PLANTS:
    if "script" in _p:
        _p["script"] = _p["script"].replace("@S", SHEADPY).replace("@M", MACROPY)
