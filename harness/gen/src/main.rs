//! gen JOBS.json OUT.ndjson
//!
//! JOBS is an array of {"doc": "<OpenAPI JSON text>", "runs": [{"style", "settings", "out", "want": [..]}]}.
//! For each run one line is written: {"job", "run", "r": "ok"|"err"|"panic"|"baddoc", ...}.

use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn ts(v: &Value) -> Option<proc_macro2::TokenStream> {
    v.as_str().map(|s| s.parse().expect("settings tokens"))
}

fn settings(run: &Value) -> GenerationSettings {
    let mut s = GenerationSettings::new();
    match run["style"].as_str().unwrap() {
        "positional" => s.with_interface(InterfaceStyle::Positional),
        "builder" => s.with_interface(InterfaceStyle::Builder),
        "separate" | "cli" | "httpmock" => {
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate)
        }
        "cli_merged" | "httpmock_merged" => {
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Merged)
        }
        x => panic!("style {x}"),
    };
    let c = &run["settings"];
    if let Some(t) = ts(&c["inner_type"]) {
        s.with_inner_type(t);
    }
    if let Some(t) = ts(&c["pre_hook"]) {
        s.with_pre_hook(t);
    }
    if let Some(t) = ts(&c["pre_hook_async"]) {
        s.with_pre_hook_async(t);
    }
    if let Some(t) = ts(&c["post_hook"]) {
        s.with_post_hook(t);
    }
    if let Some(t) = ts(&c["post_hook_async"]) {
        s.with_post_hook_async(t);
    }
    for d in c["derives"].as_array().unwrap_or(&vec![]) {
        s.with_derive(d.as_str().unwrap());
    }
    if let Some(m) = c["map_type"].as_str() {
        s.with_map_type(m);
    }
    for p in c["patch"].as_array().unwrap_or(&vec![]) {
        let mut patch = progenitor_impl::TypePatch::default();
        if let Some(d) = p["derive"].as_str() {
            patch.with_derive(d);
        }
        if let Some(d) = p["rename"].as_str() {
            patch.with_rename(d);
        }
        s.with_patch(p["name"].as_str().unwrap(), &patch);
    }
    s
}

/// One setter call, as the specification names it.
fn apply(s: &mut GenerationSettings, o: &Value) {
    use progenitor_impl::{CrateVers, TypeImpl, TypePatch, UnknownPolicy};
    let f = |k: &str| o[k].as_str().unwrap_or_default().to_string();
    let xs: Vec<String> = o["xs"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let impls: Vec<TypeImpl> = match o["set"].as_str().unwrap() {
        "replace" | "convert" => xs.iter().map(|x| x.parse().expect("a trait")).collect(),
        _ => vec![],
    };
    let (key, a, b) = (f("key"), f("a"), f("b"));
    let t = |s: &str| s.parse::<proc_macro2::TokenStream>().expect("tokens");
    match o["set"].as_str().unwrap() {
        "interface" => s.with_interface(if a == "Builder" { InterfaceStyle::Builder } else { InterfaceStyle::Positional }),
        "tag" => s.with_tag(if a == "Separate" { TagStyle::Separate } else { TagStyle::Merged }),
        "inner" => s.with_inner_type(t(&a)),
        "pre" => s.with_pre_hook(t(&a)),
        "preA" => s.with_pre_hook_async(t(&a)),
        "post" => s.with_post_hook(t(&a)),
        "postA" => s.with_post_hook_async(t(&a)),
        "derive" => s.with_derive(&a),
        "unknown" => s.with_unknown_crates(match a.as_str() {
            "Allow" => UnknownPolicy::Allow,
            "Deny" => UnknownPolicy::Deny,
            _ => UnknownPolicy::Generate,
        }),
        "map" => s.with_map_type(&a),
        "crate" => s.with_crate(key, CrateVers::parse(&a).expect("a version"), if b.is_empty() { None } else { Some(&b) }),
        "patch" => {
            let mut p = TypePatch::default();
            if !a.is_empty() {
                p.with_rename(&a);
            }
            for x in &xs {
                p.with_derive(x);
            }
            s.with_patch(key, &p)
        }
        "replace" => s.with_replacement(key, a, impls.into_iter()),
        "convert" => {
            let schema: schemars::schema::SchemaObject = serde_json::from_str(&key).expect("a schema");
            s.with_conversion(schema, a, impls.into_iter())
        }
        x => panic!("setter {x}"),
    };
}

/// The tokens of a text, one by one, string literals by their value.
fn flat(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
    use proc_macro2::{Delimiter, TokenTree};
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.extend((!a.is_empty()).then(|| a.to_string()));
                flat(g.stream(), out);
                out.extend((!b.is_empty()).then(|| b.to_string()));
            }
            TokenTree::Literal(l) => out.push(match syn::parse_str::<syn::LitStr>(&l.to_string()) {
                Ok(s) => format!("{:?}", s.value()),
                Err(_) => l.to_string(),
            }),
            x => out.push(x.to_string()),
        }
    }
}

/// What generated code shows of the settings behind it.
fn look(text: &str) -> Value {
    let ts: proc_macro2::TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return json!({"r": "notokens"}),
    };
    let mut toks = vec![];
    flat(ts, &mut toks);
    let told = toks
        .iter()
        .position(|t| t == "TYPE_SPACE_SETTINGS")
        .and_then(|p| toks[p..].iter().find(|t| t.starts_with('"')))
        .and_then(|t| syn::parse_str::<syn::LitStr>(t).ok())
        .and_then(|t| serde_json::from_str::<Value>(&t.value()).ok());
    let mut zz: Vec<&String> = toks.iter().filter(|t| t.starts_with("zzh_")).collect();
    zz.sort();
    zz.dedup();
    let sg = sigs(text);
    let has = |p: &str| sg.as_array().is_some_and(|a| a.iter().any(|x| x[0].as_str().unwrap().starts_with(p)));
    let Some(told) = told else {
        return json!({"r": "err", "msg": text.chars().take(400).collect::<String>()});
    };
    json!({
        "r": "ok",
        "interface": if has("builder::") { "Builder" } else { "Positional" },
        "tag": if has("trait ") { "Separate" } else { "Merged" },
        "tokens": zz,
        "told": told,
    })
}

/// A source file as a hash of its tokens, and the crates its paths start from.
fn source(path: &str) -> Value {
    use std::hash::{Hash, Hasher};
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return json!({"r": "ok", "hash": "absent", "mentions": [], "mod": false}),
    };
    let Ok(ts) = text.parse() else {
        return json!({"r": "ok", "hash": "notokens", "mentions": [], "mod": false});
    };
    let mut t = vec![];
    flat(ts, &mut t);
    let m = ["mod", "progenitor_client", ";"];
    let at = t.windows(3).position(|w| w == m);
    if let Some(p) = at {
        t.drain(p..p + 3);
    }
    let known = [
        "base64", "bytes", "chrono", "futures", "futures_core", "percent_encoding", "progenitor_client", "rand", "regress",
        "reqwest", "serde", "serde_json", "serde_urlencoded", "uuid",
    ];
    let path = |k: usize| t.get(k).map(String::as_str) == Some(":") && t.get(k + 1).map(String::as_str) == Some(":");
    let ident = |s: &str| s.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_');
    let mut mentions: Vec<String> = vec![];
    for k in 0..t.len() {
        let inner = k >= 3 && path(k - 2) && (ident(&t[k - 3]) && !["use", "as", "dyn", "impl", "in", "for", "return", "mut"].contains(&t[k - 3].as_str()) || t[k - 3] == ">");
        if known.contains(&t[k].as_str()) && path(k + 1) && !inner {
            mentions.push(t[k].replace('_', "-").replace("serde-json", "serde_json").replace("serde-urlencoded", "serde_urlencoded"));
        }
    }
    mentions.sort();
    mentions.dedup();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    json!({"r": "ok", "hash": format!("{:016x}", h.finish()), "mentions": mentions, "mod": at.is_some()})
}

/// A history of setter calls and of generators made on the way; every
/// generator is used once the history is over.
fn history(doc: &openapiv3::OpenAPI, run: &Value) -> Value {
    let mut s = GenerationSettings::new();
    let mut gens = vec![];
    for e in run["script"].as_array().unwrap() {
        match e["ev"].as_str().unwrap() {
            "call" => apply(&mut s, &e["o"]),
            "new" if e["default"] == true => gens.push(Generator::default()),
            "new" => gens.push(Generator::new(&s)),
            x => panic!("event {x}"),
        }
    }
    let outs: Vec<Value> = gens
        .iter_mut()
        .map(|g| {
            let r = catch_unwind(AssertUnwindSafe(|| g.generate_tokens(doc).map(|t| t.to_string())));
            match r {
                Err(_) => json!({"r": "panic", "msg": PANIC.lock().unwrap().clone()}),
                Ok(Err(e)) => json!({"r": "err", "msg": e.to_string()}),
                Ok(Ok(t)) => {
                    let mut v = look(&t);
                    v["futures"] = json!(g.uses_futures());
                    v["websockets"] = json!(g.uses_websockets());
                    // what a macro made of the same settings
                    if let Some(p) = run["beside"].as_str() {
                        let m = std::fs::read_to_string(p).unwrap_or_default();
                        let fl = |t: &str| {
                            let mut v = vec![];
                            if let Ok(t) = t.parse() {
                                flat(t, &mut v);
                            }
                            v.join("\u{1f}")
                        };
                        let mut w = look(&m);
                        w["same"] = json!(fl(&m).contains(&fl(&t)));
                        v["macro"] = w;
                    }
                    v
                }
            }
        })
        .collect();
    json!({"r": "ok", "outs": outs})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let jobs: Vec<Value> =
        serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("jobs")).expect("jobs json");
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) =
            format!("{} @ {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    let mut out = vec![];
    for (ji, job) in jobs.iter().enumerate() {
        let doc: Result<openapiv3::OpenAPI, _> = serde_json::from_str(job["doc"].as_str().expect("doc is JSON text"));
        for (ri, run) in job["runs"].as_array().unwrap().iter().enumerate() {
            let mut line = match &doc {
                Err(e) => json!({"r": "baddoc", "msg": e.to_string()}),
                Ok(doc) => {
                    let r = catch_unwind(AssertUnwindSafe(|| one(doc, run)));
                    match r {
                        Ok(v) => v,
                        Err(_) => json!({"r": "panic", "msg": PANIC.lock().unwrap().clone()}),
                    }
                }
            };
            line["job"] = json!(ji);
            line["run"] = json!(ri);
            out.push(line.to_string());
        }
    }
    std::fs::write(&a[2], out.join("\n") + "\n").expect("out");
}

fn one(doc: &openapiv3::OpenAPI, run: &Value) -> Value {
    let style = run["style"].as_str().unwrap();
    if style == "validate" {
        return match progenitor_impl::validate_openapi(doc) {
            Ok(()) => json!({"r": "ok"}),
            Err(e) => json!({"r": "err", "msg": e.to_string()}),
        };
    }
    if style == "source" {
        return source(run["in"].as_str().unwrap());
    }
    if style == "history" {
        std::env::set_var("TYPIFY_EMBED_SETTINGS", "1");
        return history(doc, run);
    }
    std::env::remove_var("TYPIFY_EMBED_SETTINGS");
    let want: Vec<&str> =
        run["want"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    // the schemas are observed on their own: no types are built from them
    if want == ["schemas"] {
        std::env::set_var("TYPIFY_RECORD_ONLY", "1");
    } else {
        std::env::remove_var("TYPIFY_RECORD_ONLY");
    }
    let s = settings(run);
    let mut g = Generator::new(&s);
    let res = if style.starts_with("cli") {
        g.cli(doc, run["crate_path"].as_str().unwrap_or("crate::api"))
    } else if style.starts_with("httpmock") {
        g.httpmock(doc, run["crate_path"].as_str().unwrap_or("crate::api"))
    } else {
        g.generate_tokens(doc)
    };
    let mut v = match res {
        Err(e) => json!({"r": "err", "msg": e.to_string()}),
        Ok(t) => {
            let text = t.to_string();
            if let Some(p) = run["out"].as_str() {
                std::fs::write(p, &text).expect("write generated code");
            }
            let mut v = json!({"r": "ok", "len": text.len()});
            if want.contains(&"text") {
                v["text"] = json!(text);
            }
            if want.contains(&"hash") {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                v["hash"] = json!(format!("{:016x}", h.finish()));
            }
            if want.contains(&"docs") {
                let (bare, docs) = documented(&text);
                v["bare"] = bare;
                v["docs"] = docs;
            }
            if want.contains(&"sigs") {
                v["sigs"] = sigs(&text);
            }
            v
        }
    };
    if want.contains(&"schemas") {
        v["schemas"] = json!(g
            .get_type_space()
            .received()
            .iter()
            .map(|(n, s)| json!([n, serde_json::to_value(s).unwrap()]))
            .collect::<Vec<_>>());
    }
    v
}

/// The code without its documentation, as a hash of its tokens, and the
/// documentation of every client method, trait and of the client itself.
fn documented(text: &str) -> (Value, Value) {
    use std::hash::{Hash, Hasher};
    let mut t = vec![];
    match text.parse() {
        Ok(ts) => flat(ts, &mut t),
        Err(_) => return (json!("notokens"), json!([])),
    }
    let mut bare = vec![];
    let mut k = 0;
    while k < t.len() {
        if t[k] == "#" && t.get(k + 1).is_some_and(|x| x == "[") && t.get(k + 2).is_some_and(|x| x == "doc") && t.get(k + 3).is_some_and(|x| x == "=") && t.get(k + 5).is_some_and(|x| x == "]") {
            k += 6;
        } else {
            bare.push(&t[k]);
            k += 1;
        }
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    bare.hash(&mut h);
    let f: syn::File = match syn::parse_str(text) {
        Ok(f) => f,
        Err(e) => return (json!(format!("syntax error: {e}")), json!([])),
    };
    fn text_of(attrs: &[syn::Attribute]) -> String {
        let mut v = vec![];
        for a in attrs {
            if let syn::Meta::NameValue(m) = &a.meta {
                if let (true, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = (m.path.is_ident("doc"), &m.value) {
                    v.push(s.value());
                }
            }
        }
        v.join("\n")
    }
    let mut docs = vec![];
    for it in &f.items {
        match it {
            syn::Item::Struct(x) => docs.push(json!(["struct", x.ident.to_string(), text_of(&x.attrs)])),
            syn::Item::Impl(i) if i.trait_.is_none() => {
                for f in &i.items {
                    if let syn::ImplItem::Fn(f) = f {
                        docs.push(json!(["fn", f.sig.ident.to_string(), text_of(&f.attrs)]));
                    }
                }
            }
            syn::Item::Trait(x) => {
                docs.push(json!(["trait", x.ident.to_string(), text_of(&x.attrs)]));
                for f in &x.items {
                    if let syn::TraitItem::Fn(f) = f {
                        docs.push(json!(["fn", f.sig.ident.to_string(), text_of(&f.attrs)]));
                    }
                }
            }
            _ => {}
        }
    }
    (json!(format!("{:016x}", h.finish())), Value::Array(docs))
}

/// The public surface of a generated client: every `pub fn` (or trait fn) with
/// its container, name and argument names.
fn sigs(text: &str) -> Value {
    let f: syn::File = match syn::parse_str(text) {
        Ok(f) => f,
        Err(e) => return json!({"syntax_error": e.to_string()}),
    };
    let mut out = vec![];
    fn args(sig: &syn::Signature) -> Vec<String> {
        sig.inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => Some("?".into()),
                },
                _ => None,
            })
            .collect()
    }
    fn walk(items: &[syn::Item], path: &str, out: &mut Vec<Value>) {
        for it in items {
            match it {
                syn::Item::Mod(m) if m.ident != "types" => {
                    if let Some((_, items)) = &m.content {
                        walk(items, &format!("{path}{}::", m.ident), out);
                    }
                }
                syn::Item::Impl(i) if i.trait_.is_none() => {
                    let ty = match &*i.self_ty {
                        syn::Type::Path(p) => {
                            p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
                        }
                        _ => "?".into(),
                    };
                    for f in &i.items {
                        if let syn::ImplItem::Fn(f) = f {
                            if matches!(f.vis, syn::Visibility::Public(_)) {
                                out.push(json!([format!("{path}{ty}"), f.sig.ident.to_string(), args(&f.sig)]));
                            }
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for f in &t.items {
                        if let syn::TraitItem::Fn(f) = f {
                            out.push(json!([format!("{path}trait {}", t.ident), f.sig.ident.to_string(), args(&f.sig)]));
                        }
                    }
                }
                // what the prelude offers
                syn::Item::Use(u) if path == "prelude::" && matches!(u.vis, syn::Visibility::Public(_)) => {
                    fn leaves(t: &syn::UseTree, out: &mut Vec<Value>) {
                        match t {
                            syn::UseTree::Path(p) => leaves(&p.tree, out),
                            syn::UseTree::Name(n) => out.push(json!(["prelude", n.ident.to_string(), []])),
                            syn::UseTree::Rename(n) => out.push(json!(["prelude", n.rename.to_string(), []])),
                            syn::UseTree::Glob(_) => out.push(json!(["prelude", "*", []])),
                            syn::UseTree::Group(g) => g.items.iter().for_each(|t| leaves(t, out)),
                        }
                    }
                    leaves(&u.tree, out);
                }
                _ => {}
            }
        }
    }
    walk(&f.items, "", &mut out);
    Value::Array(out)
}
