//! Stand-in for the `openapiv3` crate, version 2.0 (the real one is not in
//! the offline cache). Same public data model, field names, field types and
//! serde representation for what OpenAPI 3.0.x documents contain.

use indexmap::IndexMap;
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::fmt;

pub mod v3_0 {
    pub use super::*;
}

fn is_false(b: &bool) -> bool {
    !*b
}

// ---------------------------------------------------------------- references

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum ReferenceOr<T> {
    Reference {
        #[serde(rename = "$ref")]
        reference: String,
    },
    Item(T),
}

impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference {
            reference: r.to_owned(),
        }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn to_item_ref(&self) -> ReferenceOr<&T> {
        self.as_ref()
    }
    pub fn as_ref(&self) -> ReferenceOr<&T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference {
                reference: reference.clone(),
            },
            ReferenceOr::Item(i) => ReferenceOr::Item(i),
        }
    }
}

impl<T: 'static> ReferenceOr<T> {
    pub fn as_ref_str(&self) -> Option<&str> {
        match self {
            ReferenceOr::Reference { reference } => Some(reference),
            ReferenceOr::Item(_) => None,
        }
    }
}

impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(boxed) => ReferenceOr::Item(*boxed),
        }
    }
}

impl<T> From<T> for ReferenceOr<T> {
    fn from(t: T) -> Self {
        ReferenceOr::Item(t)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(untagged)]
pub enum VariantOrUnknown<T> {
    Item(T),
    Unknown(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    Empty,
}

impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn as_item(&self) -> Option<&T> {
        match self {
            Self::Item(i) => Some(i),
            _ => None,
        }
    }
    pub fn is_empty(&self) -> bool {
        matches!(self, Self::Empty)
    }
}

impl<T> Default for VariantOrUnknownOrEmpty<T> {
    fn default() -> Self {
        Self::Empty
    }
}

impl<T: de::DeserializeOwned> VariantOrUnknownOrEmpty<T> {
    fn from_opt(s: Option<String>) -> Self {
        match s {
            None => Self::Empty,
            Some(s) => match serde_json::from_value::<T>(Value::String(s.clone())) {
                Ok(t) => Self::Item(t),
                Err(_) => Self::Unknown(s),
            },
        }
    }
}

impl<T: Serialize> Serialize for VariantOrUnknownOrEmpty<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Self::Item(t) => t.serialize(s),
            Self::Unknown(u) => u.serialize(s),
            Self::Empty => s.serialize_none(),
        }
    }
}

impl<'de, T: de::DeserializeOwned> Deserialize<'de> for VariantOrUnknownOrEmpty<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Self::from_opt(Option::<String>::deserialize(d)?))
    }
}

// ---------------------------------------------------------------- extensions

fn only_ext<'de, D>(d: D) -> Result<IndexMap<String, Value>, D::Error>
where
    D: Deserializer<'de>,
{
    let m = IndexMap::<String, Value>::deserialize(d)?;
    Ok(m.into_iter()
        .filter(|(k, _)| k.starts_with("x-"))
        .collect())
}

// ------------------------------------------------------------------ document

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct OpenAPI {
    pub openapi: String,
    pub info: Info,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub servers: Vec<Server>,
    pub paths: Paths,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub components: Option<Components>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub security: Option<Vec<SecurityRequirement>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<Tag>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

impl OpenAPI {
    pub fn operations(&self) -> impl Iterator<Item = (&str, &str, &Operation, &PathItem)> {
        self.paths
            .iter()
            .filter_map(|(path, item)| item.as_item().map(|i| (path, i)))
            .flat_map(|(path, item)| {
                item.iter()
                    .map(move |(method, op)| (path.as_str(), method, op, item))
            })
    }
}

pub type SecurityRequirement = IndexMap<String, Vec<String>>;

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Info {
    pub title: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub terms_of_service: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub contact: Option<Contact>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub license: Option<License>,
    pub version: String,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct Contact {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub name: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub url: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub email: Option<String>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct License {
    pub name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub url: Option<String>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct Server {
    pub url: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub variables: Option<IndexMap<String, ServerVariable>>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct ServerVariable {
    #[serde(default, rename = "enum", skip_serializing_if = "Vec::is_empty")]
    pub enumeration: Vec<String>,
    pub default: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Tag {
    pub name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct ExternalDocumentation {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    pub url: String,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Components {
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub security_schemes: IndexMap<String, ReferenceOr<SecurityScheme>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub examples: IndexMap<String, ReferenceOr<Example>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub links: IndexMap<String, ReferenceOr<Link>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub callbacks: IndexMap<String, ReferenceOr<Callback>>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

pub type SecurityScheme = Value;
pub type Example = Value;
pub type Link = Value;
pub type Callback = IndexMap<String, Value>;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Paths {
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    pub extensions: IndexMap<String, Value>,
}

impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}

impl IntoIterator for Paths {
    type Item = (String, ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::IntoIter<String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.into_iter()
    }
}

impl<'a> IntoIterator for &'a Paths {
    type Item = (&'a String, &'a ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::Iter<'a, String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.iter()
    }
}

impl Serialize for Paths {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.paths {
            m.serialize_entry(k, v)?;
        }
        for (k, v) in &self.extensions {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}

impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Paths;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map of paths")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Paths, A::Error> {
                let mut p = Paths::default();
                while let Some(k) = a.next_key::<String>()? {
                    if k.starts_with("x-") {
                        p.extensions.insert(k, a.next_value()?);
                    } else {
                        // As with the real crate, a path must start with '/'
                        // to be taken for one; we keep everything so that the
                        // generator's own validation is exercised.
                        p.paths.insert(k, a.next_value()?);
                    }
                }
                Ok(p)
            }
        }
        d.deserialize_map(V)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct PathItem {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub summary: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub get: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub put: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub post: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub delete: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub options: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub head: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub patch: Option<Operation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub trace: Option<Operation>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub servers: Vec<Server>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(m, o)| o.as_ref().map(|o| (m, o)))
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Operation {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub summary: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub operation_id: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub request_body: Option<ReferenceOr<RequestBody>>,
    pub responses: Responses,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub callbacks: IndexMap<String, Callback>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub deprecated: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub security: Option<Vec<SecurityRequirement>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub servers: Vec<Server>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    pub extensions: IndexMap<String, Value>,
}

impl Serialize for Responses {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        if let Some(d) = &self.default {
            m.serialize_entry("default", d)?;
        }
        for (k, v) in &self.responses {
            m.serialize_entry(&k.to_string(), v)?;
        }
        for (k, v) in &self.extensions {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}

impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Responses;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map of responses")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Responses, A::Error> {
                let mut r = Responses::default();
                while let Some(k) = a.next_key::<String>()? {
                    if k.starts_with("x-") {
                        r.extensions.insert(k, a.next_value()?);
                    } else if k == "default" {
                        r.default = Some(a.next_value()?);
                    } else {
                        let sc = k.parse::<StatusCode>().map_err(de::Error::custom)?;
                        r.responses.insert(sc, a.next_value()?);
                    }
                }
                Ok(r)
            }
        }
        d.deserialize_map(V)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}

impl std::str::FromStr for StatusCode {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if let Ok(c) = s.parse::<u16>() {
            return Ok(StatusCode::Code(c));
        }
        let b = s.as_bytes();
        if b.len() == 3
            && b[0].is_ascii_digit()
            && b[1].eq_ignore_ascii_case(&b'x')
            && b[2].eq_ignore_ascii_case(&b'x')
        {
            return Ok(StatusCode::Range((b[0] - b'0') as u16));
        }
        Err(format!("invalid status code {s:?}"))
    }
}

impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            StatusCode::Code(c) => write!(f, "{c}"),
            StatusCode::Range(r) => write!(f, "{r}XX"),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct Response {
    #[serde(default)]
    pub description: String,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub content: Content,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub links: IndexMap<String, ReferenceOr<Link>>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct RequestBody {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(default)]
    pub content: Content,
    #[serde(default, skip_serializing_if = "is_false")]
    pub required: bool,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

pub type Content = IndexMap<String, MediaType>;
pub type Examples = IndexMap<String, ReferenceOr<Example>>;

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
pub struct MediaType {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub schema: Option<ReferenceOr<Schema>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub example: Option<Value>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub examples: Examples,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub encoding: IndexMap<String, Encoding>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Encoding {
    pub content_type: Option<String>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub headers: IndexMap<String, ReferenceOr<Header>>,
    pub style: Option<QueryStyle>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub explode: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub allow_reserved: bool,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Header {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(default)]
    pub style: HeaderStyle,
    #[serde(default, skip_serializing_if = "is_false")]
    pub required: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub example: Option<Value>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub examples: Examples,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

// ---------------------------------------------------------------- parameters

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct ParameterData {
    pub name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub required: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(flatten)]
    pub format: ParameterSchemaOrContent,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub example: Option<Value>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub examples: Examples,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub explode: Option<bool>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "camelCase")]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(Content),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(tag = "in", rename_all = "camelCase")]
pub enum Parameter {
    #[serde(rename_all = "camelCase")]
    Query {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default, skip_serializing_if = "is_false")]
        allow_reserved: bool,
        #[serde(default)]
        style: QueryStyle,
        #[serde(skip_serializing_if = "Option::is_none")]
        allow_empty_value: Option<bool>,
    },
    Header {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: HeaderStyle,
    },
    Path {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: PathStyle,
    },
    Cookie {
        #[serde(flatten)]
        parameter_data: ParameterData,
        #[serde(default)]
        style: CookieStyle,
    },
}

impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, Default, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub enum PathStyle {
    Matrix,
    Label,
    #[default]
    Simple,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, Default, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub enum QueryStyle {
    #[default]
    Form,
    SpaceDelimited,
    PipeDelimited,
    DeepObject,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, Default, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub enum CookieStyle {
    #[default]
    Form,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, Default, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub enum HeaderStyle {
    #[default]
    Simple,
}

// ------------------------------------------------------------------- schemas

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct SchemaData {
    #[serde(default, skip_serializing_if = "is_false")]
    pub nullable: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub read_only: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub write_only: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub deprecated: bool,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub example: Option<Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub title: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub discriminator: Option<Discriminator>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub default: Option<Value>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct Discriminator {
    pub property_name: String,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub mapping: IndexMap<String, String>,
    #[serde(flatten, deserialize_with = "only_ext")]
    pub extensions: IndexMap<String, Value>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Schema {
    #[serde(flatten)]
    pub schema_data: SchemaData,
    #[serde(flatten)]
    pub schema_kind: SchemaKind,
}

#[derive(Debug, Clone, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}

#[derive(Debug, Clone, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "camelCase")]
pub struct AnySchema {
    #[serde(rename = "type", skip_serializing_if = "Option::is_none")]
    pub typ: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub pattern: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub multiple_of: Option<f64>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub exclusive_minimum: Option<bool>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub exclusive_maximum: Option<bool>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub minimum: Option<f64>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub maximum: Option<f64>,
    #[serde(default, skip_serializing_if = "IndexMap::is_empty")]
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub required: Vec<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub additional_properties: Option<AdditionalProperties>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub min_properties: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub max_properties: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub items: Option<ReferenceOr<Box<Schema>>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub min_items: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub max_items: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub unique_items: Option<bool>,
    #[serde(rename = "enum", default, skip_serializing_if = "Vec::is_empty")]
    pub enumeration: Vec<Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub format: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub min_length: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub max_length: Option<usize>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub one_of: Vec<ReferenceOr<Schema>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub all_of: Vec<ReferenceOr<Schema>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub any_of: Vec<ReferenceOr<Schema>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub not: Option<Box<ReferenceOr<Schema>>>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct StringType {
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    pub pattern: Option<String>,
    pub enumeration: Vec<Option<String>>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct NumberType {
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub enumeration: Vec<Option<f64>>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct IntegerType {
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    pub multiple_of: Option<i64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<i64>,
    pub maximum: Option<i64>,
    pub enumeration: Vec<Option<i64>>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ObjectType {
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct ArrayType {
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: bool,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct BooleanType {
    pub enumeration: Vec<Option<bool>>,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "lowercase")]
pub enum NumberFormat {
    Float,
    Double,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "lowercase")]
pub enum IntegerFormat {
    Int32,
    Int64,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "kebab-case")]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}

fn as_opt_i64(f: Option<f64>) -> Result<Option<i64>, ()> {
    match f {
        None => Ok(None),
        Some(v) if v.fract() == 0.0 && v.abs() <= 9.2e18 => Ok(Some(v as i64)),
        Some(_) => Err(()),
    }
}

fn enum_of<T>(vs: &[Value], f: impl Fn(&Value) -> Option<T>) -> Result<Vec<Option<T>>, ()> {
    vs.iter()
        .map(|v| match v {
            Value::Null => Ok(None),
            v => f(v).map(Some).ok_or(()),
        })
        .collect()
}

impl SchemaKind {
    /// Decide the kind the way the real crate does: a schema that uses only
    /// the keywords of one `type` (or only one combinator) gets that kind and
    /// everything else is `Any`.
    fn of(s: AnySchema) -> SchemaKind {
        let d = AnySchema::default();
        match s.typ.as_deref() {
            Some("string") => {
                let rest = AnySchema {
                    typ: None,
                    format: None,
                    pattern: None,
                    enumeration: vec![],
                    min_length: None,
                    max_length: None,
                    ..s.clone()
                };
                if rest == d {
                    if let Ok(enumeration) =
                        enum_of(&s.enumeration, |v| v.as_str().map(str::to_string))
                    {
                        return SchemaKind::Type(Type::String(StringType {
                            format: VariantOrUnknownOrEmpty::from_opt(s.format),
                            pattern: s.pattern,
                            enumeration,
                            min_length: s.min_length,
                            max_length: s.max_length,
                        }));
                    }
                }
            }
            Some("number") => {
                let rest = AnySchema {
                    typ: None,
                    format: None,
                    multiple_of: None,
                    exclusive_minimum: None,
                    exclusive_maximum: None,
                    minimum: None,
                    maximum: None,
                    enumeration: vec![],
                    ..s.clone()
                };
                if rest == d {
                    if let Ok(enumeration) = enum_of(&s.enumeration, Value::as_f64) {
                        return SchemaKind::Type(Type::Number(NumberType {
                            format: VariantOrUnknownOrEmpty::from_opt(s.format),
                            multiple_of: s.multiple_of,
                            exclusive_minimum: s.exclusive_minimum.unwrap_or(false),
                            exclusive_maximum: s.exclusive_maximum.unwrap_or(false),
                            minimum: s.minimum,
                            maximum: s.maximum,
                            enumeration,
                        }));
                    }
                }
            }
            Some("integer") => {
                let rest = AnySchema {
                    typ: None,
                    format: None,
                    multiple_of: None,
                    exclusive_minimum: None,
                    exclusive_maximum: None,
                    minimum: None,
                    maximum: None,
                    enumeration: vec![],
                    ..s.clone()
                };
                if rest == d {
                    if let (Ok(enumeration), Ok(multiple_of), Ok(minimum), Ok(maximum)) = (
                        enum_of(&s.enumeration, Value::as_i64),
                        as_opt_i64(s.multiple_of),
                        as_opt_i64(s.minimum),
                        as_opt_i64(s.maximum),
                    ) {
                        return SchemaKind::Type(Type::Integer(IntegerType {
                            format: VariantOrUnknownOrEmpty::from_opt(s.format),
                            multiple_of,
                            exclusive_minimum: s.exclusive_minimum.unwrap_or(false),
                            exclusive_maximum: s.exclusive_maximum.unwrap_or(false),
                            minimum,
                            maximum,
                            enumeration,
                        }));
                    }
                }
            }
            Some("boolean") => {
                let rest = AnySchema {
                    typ: None,
                    enumeration: vec![],
                    ..s.clone()
                };
                if rest == d {
                    if let Ok(enumeration) = enum_of(&s.enumeration, Value::as_bool) {
                        return SchemaKind::Type(Type::Boolean(BooleanType { enumeration }));
                    }
                }
            }
            Some("object") => {
                let rest = AnySchema {
                    typ: None,
                    properties: Default::default(),
                    required: vec![],
                    additional_properties: None,
                    min_properties: None,
                    max_properties: None,
                    ..s.clone()
                };
                if rest == d {
                    return SchemaKind::Type(Type::Object(ObjectType {
                        properties: s.properties,
                        required: s.required,
                        additional_properties: s.additional_properties,
                        min_properties: s.min_properties,
                        max_properties: s.max_properties,
                    }));
                }
            }
            Some("array") => {
                let rest = AnySchema {
                    typ: None,
                    items: None,
                    min_items: None,
                    max_items: None,
                    unique_items: None,
                    ..s.clone()
                };
                if rest == d {
                    return SchemaKind::Type(Type::Array(ArrayType {
                        items: s.items,
                        min_items: s.min_items,
                        max_items: s.max_items,
                        unique_items: s.unique_items.unwrap_or(false),
                    }));
                }
            }
            Some(_) => {}
            None => {
                if !s.one_of.is_empty()
                    && (AnySchema {
                        one_of: vec![],
                        ..s.clone()
                    }) == d
                {
                    return SchemaKind::OneOf { one_of: s.one_of };
                }
                if !s.all_of.is_empty()
                    && (AnySchema {
                        all_of: vec![],
                        ..s.clone()
                    }) == d
                {
                    return SchemaKind::AllOf { all_of: s.all_of };
                }
                if !s.any_of.is_empty()
                    && (AnySchema {
                        any_of: vec![],
                        ..s.clone()
                    }) == d
                {
                    return SchemaKind::AnyOf { any_of: s.any_of };
                }
                if s.not.is_some()
                    && (AnySchema {
                        not: None,
                        ..s.clone()
                    }) == d
                {
                    return SchemaKind::Not {
                        not: s.not.unwrap(),
                    };
                }
            }
        }
        SchemaKind::Any(s)
    }

    fn any(&self) -> AnySchema {
        fn ev<T: Serialize>(v: &[Option<T>]) -> Vec<Value> {
            v.iter()
                .map(|x| serde_json::to_value(x).unwrap())
                .collect()
        }
        fn fmt<T: Serialize>(v: &VariantOrUnknownOrEmpty<T>) -> Option<String> {
            match v {
                VariantOrUnknownOrEmpty::Empty => None,
                VariantOrUnknownOrEmpty::Unknown(s) => Some(s.clone()),
                VariantOrUnknownOrEmpty::Item(i) => serde_json::to_value(i)
                    .unwrap()
                    .as_str()
                    .map(str::to_string),
            }
        }
        fn flag(b: bool) -> Option<bool> {
            b.then_some(true)
        }
        let d = AnySchema::default();
        let t = |s: &str| Some(s.to_string());
        match self.clone() {
            SchemaKind::Any(a) => a,
            SchemaKind::OneOf { one_of } => AnySchema { one_of, ..d },
            SchemaKind::AllOf { all_of } => AnySchema { all_of, ..d },
            SchemaKind::AnyOf { any_of } => AnySchema { any_of, ..d },
            SchemaKind::Not { not } => AnySchema {
                not: Some(not),
                ..d
            },
            SchemaKind::Type(Type::String(s)) => AnySchema {
                typ: t("string"),
                format: fmt(&s.format),
                pattern: s.pattern,
                enumeration: ev(&s.enumeration),
                min_length: s.min_length,
                max_length: s.max_length,
                ..d
            },
            SchemaKind::Type(Type::Number(s)) => AnySchema {
                typ: t("number"),
                format: fmt(&s.format),
                multiple_of: s.multiple_of,
                exclusive_minimum: flag(s.exclusive_minimum),
                exclusive_maximum: flag(s.exclusive_maximum),
                minimum: s.minimum,
                maximum: s.maximum,
                enumeration: ev(&s.enumeration),
                ..d
            },
            SchemaKind::Type(Type::Integer(s)) => AnySchema {
                typ: t("integer"),
                format: fmt(&s.format),
                multiple_of: s.multiple_of.map(|v| v as f64),
                exclusive_minimum: flag(s.exclusive_minimum),
                exclusive_maximum: flag(s.exclusive_maximum),
                minimum: s.minimum.map(|v| v as f64),
                maximum: s.maximum.map(|v| v as f64),
                enumeration: ev(&s.enumeration),
                ..d
            },
            SchemaKind::Type(Type::Object(s)) => AnySchema {
                typ: t("object"),
                properties: s.properties,
                required: s.required,
                additional_properties: s.additional_properties,
                min_properties: s.min_properties,
                max_properties: s.max_properties,
                ..d
            },
            SchemaKind::Type(Type::Array(s)) => AnySchema {
                typ: t("array"),
                items: s.items,
                min_items: s.min_items,
                max_items: s.max_items,
                unique_items: flag(s.unique_items),
                ..d
            },
            SchemaKind::Type(Type::Boolean(s)) => AnySchema {
                typ: t("boolean"),
                enumeration: ev(&s.enumeration),
                ..d
            },
        }
    }
}

impl Serialize for SchemaKind {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.any().serialize(s)
    }
}

impl<'de> Deserialize<'de> for SchemaKind {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(SchemaKind::of(AnySchema::deserialize(d)?))
    }
}
