//! A small stand-in for `typify` (which the sandbox does not have): turns the
//! JSON schemas progenitor-impl hands over into Rust types with the same
//! public shape (struct + builder, string enums, untagged enums, newtypes,
//! constrained strings, options, vectors, maps), and answers the same
//! questions about them. It also records every schema it receives, which is
//! how the schema-conversion check observes the generator.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use heck::{ToPascalCase, ToSnakeCase};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use schemars::schema::{InstanceType, Schema, SchemaObject, SingleOrVec};
use serde_json::Value;
use thiserror::Error;

mod output;

#[allow(missing_docs)]
#[derive(Error, Debug)]
pub enum Error {
    #[error("unexpected value type")]
    BadValue(String, Value),
    #[error("invalid TypeId")]
    InvalidTypeId,
    #[error("value does not conform to the given schema")]
    InvalidValue,
    #[error("invalid schema for {}: {reason}", show_type_name(.type_name.as_deref()))]
    InvalidSchema {
        type_name: Option<String>,
        reason: String,
    },
}

/// Only record the schemas, build no types from them.
fn record_only() -> bool {
    std::env::var_os("TYPIFY_RECORD_ONLY").is_some()
}

fn show_type_name(t: Option<&str>) -> &str {
    t.unwrap_or("<unknown type>")
}

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, PartialEq, PartialOrd, Ord, Eq, Clone, Hash)]
pub struct TypeId(u64);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}

impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, String> {
        match s {
            "FromStr" => Ok(Self::FromStr),
            "Display" => Ok(Self::Display),
            "Default" => Ok(Self::Default),
            _ => Err(format!("{} is not a valid trait specifier", s)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum UnknownPolicy {
    #[default]
    Generate,
    Allow,
    Deny,
}

impl<'de> serde::Deserialize<'de> for UnknownPolicy {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() {
            "Generate" => Ok(Self::Generate),
            "Allow" => Ok(Self::Allow),
            "Deny" => Ok(Self::Deny),
            o => Err(serde::de::Error::custom(format!("unknown policy {o}"))),
        }
    }
}

#[derive(Debug, Clone)]
pub enum CrateVers {
    Version(semver::Version),
    Any,
    Never,
}

impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        match s {
            "!" => Some(Self::Never),
            "*" => Some(Self::Any),
            s => semver::Version::parse(s).ok().map(Self::Version),
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct TypeSpacePatch {
    rename: Option<String>,
    derives: Vec<String>,
}

impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, rename: S) -> &mut Self {
        self.rename = Some(rename.to_string());
        self
    }
    pub fn with_derive<S: ToString>(&mut self, derive: S) -> &mut Self {
        self.derives.push(derive.to_string());
        self
    }
}

#[derive(Debug, Clone)]
struct Replacement {
    name: String,
    impls: Vec<TypeSpaceImpl>,
}

/// JSON text with the members in order of their names.
fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let m: BTreeMap<&String, &Value> = m.iter().collect();
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", Value::from(k.as_str()), canon(v))).collect();
            format!("{{{}}}", v.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}

#[derive(Debug, Clone, Default)]
pub struct TypeSpaceSettings {
    type_mod: Option<String>,
    extra_derives: Vec<String>,
    struct_builder: bool,
    unknown_crates: UnknownPolicy,
    crates: BTreeMap<String, (CrateVers, Option<String>)>,
    patch: BTreeMap<String, TypeSpacePatch>,
    replace: BTreeMap<String, Replacement>,
    convert: Vec<(SchemaObject, Replacement)>,
    map_type: Option<String>,
}

impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, m: S) -> &mut Self {
        self.type_mod = Some(m.as_ref().to_string());
        self
    }
    pub fn with_struct_builder(&mut self, b: bool) -> &mut Self {
        self.struct_builder = b;
        self
    }
    pub fn with_derive(&mut self, d: String) -> &mut Self {
        if !self.extra_derives.contains(&d) {
            self.extra_derives.push(d);
        }
        self
    }
    pub fn with_unknown_crates(&mut self, p: UnknownPolicy) -> &mut Self {
        self.unknown_crates = p;
        self
    }
    pub fn with_crate<S: ToString>(
        &mut self,
        name: S,
        v: CrateVers,
        rename: Option<&String>,
    ) -> &mut Self {
        self.crates.insert(name.to_string(), (v, rename.cloned()));
        self
    }
    pub fn with_patch<S: ToString>(&mut self, name: S, p: &TypeSpacePatch) -> &mut Self {
        self.patch.insert(name.to_string(), p.clone());
        self
    }
    pub fn with_replacement<TS: ToString, RS: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        type_name: TS,
        replace: RS,
        impls: I,
    ) -> &mut Self {
        self.replace.insert(
            type_name.to_string(),
            Replacement {
                name: replace.to_string(),
                impls: impls.collect(),
            },
        );
        self
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        schema: SchemaObject,
        type_name: S,
        impls: I,
    ) -> &mut Self {
        self.convert.push((
            schema,
            Replacement {
                name: type_name.to_string(),
                impls: impls.collect(),
            },
        ));
        self
    }
    pub fn with_map_type<T: ToString>(&mut self, t: T) -> &mut Self {
        self.map_type = Some(t.to_string());
        self
    }
    pub fn with_vec_type<T: ToString>(&mut self, _t: T) -> &mut Self {
        self
    }

    /// Everything these settings say.
    pub fn told(&self) -> Value {
        fn impls(r: &Replacement) -> Vec<String> {
            let mut v: Vec<_> = r.impls.iter().map(|i| format!("{i:?}")).collect();
            v.sort();
            v.dedup();
            v
        }
        let plain = |s: &str| s.replace(' ', "");
        serde_json::json!({
            "mod": self.type_mod.clone().unwrap_or_default(),
            "builder": self.struct_builder,
            "derives": self.extra_derives.iter().map(|d| plain(d)).collect::<Vec<_>>(),
            "unknown": format!("{:?}", self.unknown_crates),
            "crates": self.crates.iter().map(|(n, (v, r))| serde_json::json!({
                "name": n,
                "version": match v {
                    CrateVers::Version(v) => v.to_string(),
                    CrateVers::Any => "*".to_string(),
                    CrateVers::Never => "!".to_string(),
                },
                "rename": r.clone().unwrap_or_default(),
            })).collect::<Vec<_>>(),
            "patch": self.patch.iter().map(|(n, p)| serde_json::json!({
                "name": n,
                "rename": p.rename.clone().unwrap_or_default(),
                "derives": p.derives.iter().map(|d| plain(d)).collect::<Vec<_>>(),
            })).collect::<Vec<_>>(),
            "replace": self.replace.iter().map(|(n, r)| serde_json::json!({
                "name": n, "with": plain(&r.name), "impls": impls(r),
            })).collect::<Vec<_>>(),
            "convert": self.convert.iter().map(|(s, r)| serde_json::json!({
                "schema": canon(&serde_json::to_value(s).unwrap_or_default()),
                "with": plain(&r.name), "impls": impls(r),
            })).collect::<Vec<_>>(),
            "map": plain(self.map_type.as_deref().unwrap_or("")),
        })
    }
}

// ---------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub(crate) enum PropState {
    Required,
    Optional,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub(crate) struct Prop {
    pub name: String,
    pub json: String,
    pub description: Option<String>,
    pub state: PropState,
    pub ty: TypeId,
    /// flattened map of additional properties
    pub flatten: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub(crate) enum VariantDetails {
    Simple,
    Item(TypeId),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub(crate) struct Variant {
    pub name: String,
    pub json: String,
    pub details: VariantDetails,
}

#[derive(Debug, Clone, PartialEq)]
pub(crate) enum Kind {
    Struct {
        name: String,
        description: Option<String>,
        props: Vec<Prop>,
    },
    Enum {
        name: String,
        description: Option<String>,
        untagged: bool,
        variants: Vec<Variant>,
    },
    Newtype {
        name: String,
        description: Option<String>,
        inner: TypeId,
        min_length: Option<u32>,
        max_length: Option<u32>,
        pattern: Option<String>,
        deny: Option<Vec<String>>,
    },
    Native {
        path: String,
        impls: Vec<TypeSpaceImpl>,
    },
    Option(TypeId),
    Box(TypeId),
    Vec(TypeId),
    Set(TypeId),
    Map(TypeId, TypeId),
    Array(TypeId, usize),
    Tuple(Vec<TypeId>),
    Unit,
    Boolean,
    Number(String),
    String,
    JsonValue,
    /// placeholder for a reference under construction
    Pending(String),
}

#[derive(Debug, Clone)]
pub struct TypeSpace {
    pub(crate) settings: TypeSpaceSettings,
    pub(crate) types: Vec<Kind>,
    refs: HashMap<String, TypeId>,
    ref_schemas: HashMap<String, Schema>,
    names: BTreeMap<String, TypeId>,
    received: Vec<(String, Schema)>,
    uses_uuid: bool,
    uses_chrono: bool,
    uses_regress: bool,
    uses_serde_json: bool,
}

impl Default for TypeSpace {
    fn default() -> Self {
        Self::new(&TypeSpaceSettings::default())
    }
}

impl TypeSpace {
    pub fn new(settings: &TypeSpaceSettings) -> Self {
        Self {
            settings: settings.clone(),
            types: Vec::new(),
            refs: HashMap::new(),
            ref_schemas: HashMap::new(),
            names: BTreeMap::new(),
            received: Vec::new(),
            uses_uuid: false,
            uses_chrono: false,
            uses_regress: false,
            uses_serde_json: false,
        }
    }

    /// Every schema handed to this type space, in order: name and schema.
    pub fn received(&self) -> &[(String, Schema)] {
        &self.received
    }

    pub fn uses_uuid(&self) -> bool {
        self.uses_uuid
    }
    pub fn uses_chrono(&self) -> bool {
        self.uses_chrono
    }
    pub fn uses_regress(&self) -> bool {
        self.uses_regress
    }
    pub fn uses_serde_json(&self) -> bool {
        self.uses_serde_json
    }
    pub fn uses_rand(&self) -> bool {
        false
    }

    fn push(&mut self, k: Kind) -> TypeId {
        // Structural types are shared; named ones are looked up by name.
        let named = matches!(
            k,
            Kind::Struct { .. } | Kind::Enum { .. } | Kind::Newtype { .. } | Kind::Pending(_)
        );
        if !named {
            if let Some(i) = self.types.iter().position(|t| t == &k) {
                return TypeId(i as u64);
            }
        }
        self.types.push(k);
        TypeId(self.types.len() as u64 - 1)
    }

    pub(crate) fn kind(&self, id: &TypeId) -> &Kind {
        &self.types[id.0 as usize]
    }

    pub fn add_ref_types<I, S>(&mut self, defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        let defs: Vec<(String, Schema)> = defs
            .into_iter()
            .map(|(n, s)| (n.as_ref().to_string(), s))
            .collect();
        let fresh: Vec<_> = defs
            .iter()
            .filter(|(n, s)| self.ref_schemas.get(n) != Some(s))
            .cloned()
            .collect();
        for (n, s) in &defs {
            self.received.push((n.clone(), s.clone()));
        }
        if record_only() {
            return Ok(());
        }
        // Reserve an id for each so that cycles resolve.
        for (n, s) in &fresh {
            self.ref_schemas.insert(n.clone(), s.clone());
            let id = self.push(Kind::Pending(n.clone()));
            self.refs.insert(n.clone(), id);
        }
        for (n, s) in &fresh {
            let id = self.refs[n].clone();
            if let Some(r) = self.settings.replace.get(n).cloned() {
                self.types[id.0 as usize] = Kind::Native {
                    path: r.name,
                    impls: r.impls,
                };
                continue;
            }
            let mut name = sanitize_type(n);
            if let Some(p) = self.settings.patch.get(&name) {
                if let Some(r) = &p.rename {
                    name = r.clone();
                }
            }
            let kind = self.convert_kind(Some(&name), true, s)?;
            let kind = match kind {
                // A component is always its own named type.
                k @ (Kind::Struct { .. } | Kind::Enum { .. } | Kind::Newtype { .. }) => k,
                other => {
                    let inner = match other {
                        Kind::Pending(r) => self.refs[&r].clone(),
                        o => self.push(o),
                    };
                    Kind::Newtype {
                        name: name.clone(),
                        description: description(s),
                        inner,
                        min_length: None,
                        max_length: None,
                        pattern: None,
                        deny: None,
                    }
                }
            };
            self.names.insert(name, id.clone());
            self.types[id.0 as usize] = kind;
        }
        // Break direct containment cycles with boxes.
        self.break_cycles();
        Ok(())
    }

    fn break_cycles(&mut self) {
        for i in 0..self.types.len() {
            let Kind::Struct { props, .. } = self.types[i].clone() else {
                continue;
            };
            let mut props = props;
            let mut changed = false;
            for p in props.iter_mut() {
                if self.contains_inline(&p.ty, i as u64, &mut BTreeSet::new()) {
                    let inner = match self.kind(&p.ty).clone() {
                        Kind::Option(t) => {
                            let b = self.push(Kind::Box(t));
                            self.push(Kind::Option(b))
                        }
                        _ => self.push(Kind::Box(p.ty.clone())),
                    };
                    p.ty = inner;
                    changed = true;
                }
            }
            if changed {
                if let Kind::Struct { props: pp, .. } = &mut self.types[i] {
                    *pp = props;
                }
            }
        }
    }

    fn contains_inline(&self, t: &TypeId, target: u64, seen: &mut BTreeSet<u64>) -> bool {
        if t.0 == target {
            return true;
        }
        if !seen.insert(t.0) {
            return false;
        }
        match self.kind(t) {
            Kind::Struct { props, .. } => props
                .iter()
                .any(|p| self.contains_inline(&p.ty, target, seen)),
            Kind::Enum { variants, .. } => variants.iter().any(|v| match &v.details {
                VariantDetails::Item(t) => self.contains_inline(t, target, seen),
                _ => false,
            }),
            Kind::Newtype { inner, .. } => self.contains_inline(inner, target, seen),
            Kind::Option(t) | Kind::Array(t, _) => self.contains_inline(t, target, seen),
            Kind::Tuple(ts) => ts.iter().any(|t| self.contains_inline(t, target, seen)),
            _ => false,
        }
    }

    pub fn add_type(&mut self, schema: &Schema) -> Result<TypeId> {
        self.add_type_with_name(schema, None)
    }

    pub fn add_type_with_name(
        &mut self,
        schema: &Schema,
        name_hint: Option<String>,
    ) -> Result<TypeId> {
        self.received
            .push((name_hint.clone().unwrap_or_default(), schema.clone()));
        if record_only() {
            return Ok(self.push(Kind::JsonValue));
        }
        let id = self.id_for(name_hint.as_deref(), schema)?;
        self.break_cycles();
        Ok(id)
    }

    fn id_for(&mut self, hint: Option<&str>, schema: &Schema) -> Result<TypeId> {
        let k = self.convert_kind(hint, false, schema)?;
        Ok(self.intern(k))
    }

    fn intern(&mut self, k: Kind) -> TypeId {
        let name = match &k {
            Kind::Struct { name, .. } | Kind::Enum { name, .. } | Kind::Newtype { name, .. } => {
                name.clone()
            }
            Kind::Pending(r) => return self.refs[r].clone(),
            _ => return self.push(k),
        };
        let mut candidate = name.clone();
        let mut n = 1;
        loop {
            match self.names.get(&candidate) {
                None => break,
                Some(id) => {
                    let mut renamed = k.clone();
                    set_name(&mut renamed, &candidate);
                    if self.kind(id) == &renamed {
                        return id.clone();
                    }
                    n += 1;
                    candidate = format!("{name}{n}");
                }
            }
        }
        let mut k = k;
        set_name(&mut k, &candidate);
        let id = self.push(k);
        self.names.insert(candidate, id.clone());
        id
    }

    fn need_name(&self, hint: Option<&str>, s: &SchemaObject) -> Result<String> {
        let title = s.metadata.as_ref().and_then(|m| m.title.clone());
        let n = hint
            .map(str::to_string)
            .or(title)
            .ok_or_else(|| Error::InvalidSchema {
                type_name: None,
                reason: "a type that needs a name has none".to_string(),
            })?;
        Ok(sanitize_type(&n))
    }

    fn named(&self, hint: Option<&str>, required: bool, s: &SchemaObject) -> Result<String> {
        let title = s.metadata.as_ref().and_then(|m| m.title.clone());
        match (required, title) {
            (false, Some(t)) => Ok(sanitize_type(&t)),
            _ => self.need_name(hint, s),
        }
    }

    /// Resolve a schema through references (for decisions only).
    fn resolve<'a>(&'a self, s: &'a Schema) -> Option<&'a SchemaObject> {
        match s {
            Schema::Bool(_) => None,
            Schema::Object(o) => match &o.reference {
                Some(r) => {
                    let key = ref_key(r);
                    self.ref_schemas.get(&key).and_then(|s| self.resolve(s))
                }
                None => Some(o),
            },
        }
    }

    fn option_of(&mut self, id: TypeId) -> Kind {
        match self.kind(&id) {
            Kind::Option(_) => self.kind(&id).clone(),
            _ => Kind::Option(id),
        }
    }

    fn convert_kind(&mut self, hint: Option<&str>, required: bool, schema: &Schema) -> Result<Kind> {
        let so = match schema {
            Schema::Bool(true) => {
                self.uses_serde_json = true;
                return Ok(Kind::JsonValue);
            }
            Schema::Bool(false) => {
                return Err(Error::InvalidSchema {
                    type_name: hint.map(str::to_string),
                    reason: "false schema".to_string(),
                })
            }
            Schema::Object(o) => o,
        };
        if let Some(r) = &so.reference {
            let key = ref_key(r);
            if !self.refs.contains_key(&key) {
                return Err(Error::InvalidSchema {
                    type_name: hint.map(str::to_string),
                    reason: format!("unresolved reference {r}"),
                });
            }
            return Ok(Kind::Pending(key));
        }
        {
            let mut bare = so.clone();
            bare.metadata = None;
            for (s, r) in &self.settings.convert {
                if s == &bare {
                    return Ok(Kind::Native {
                        path: r.name.clone(),
                        impls: r.impls.clone(),
                    });
                }
            }
        }

        if so.enum_values.as_deref() == Some(&[Value::Null]) {
            return Ok(Kind::Unit);
        }

        // Nullable types become options of the rest.
        let types: Option<Vec<InstanceType>> = so.instance_type.as_ref().map(|t| match t {
            SingleOrVec::Single(t) => vec![**t],
            SingleOrVec::Vec(v) => v.clone(),
        });
        if let Some(ts) = &types {
            if ts.len() > 1 && ts.contains(&InstanceType::Null) {
                let rest: Vec<_> = ts
                    .iter()
                    .filter(|t| **t != InstanceType::Null)
                    .cloned()
                    .collect();
                let mut inner = so.clone();
                inner.instance_type = Some(if rest.len() == 1 {
                    rest[0].into()
                } else {
                    rest.into()
                });
                if let Some(ev) = &mut inner.enum_values {
                    ev.retain(|v| !v.is_null());
                }
                let h = hint.map(|h| {
                    if required {
                        format!("{h}Inner")
                    } else {
                        h.to_string()
                    }
                });
                let id = self.id_for(h.as_deref(), &Schema::Object(inner))?;
                return Ok(self.option_of(id));
            }
            if ts.len() > 1 {
                self.uses_serde_json = true;
                return Ok(Kind::JsonValue);
            }
        }

        if let Some(subs) = &so.subschemas {
            let subs = subs.clone();
            if let Some(list) = subs.all_of {
                let list: Vec<Schema> = list
                    .into_iter()
                    .filter(|s| s != &Schema::Bool(true) && s != &Schema::Object(Default::default()))
                    .collect();
                if list.len() == 1 && so.object.is_none() {
                    return self.convert_kind(hint, required, &list[0]);
                }
                let mut merged = SchemaObject {
                    metadata: so.metadata.clone(),
                    instance_type: Some(InstanceType::Object.into()),
                    object: so.object.clone(),
                    ..Default::default()
                };
                for s in &list {
                    let Some(o) = self.resolve(s).cloned() else {
                        continue;
                    };
                    if let Some(ob) = &o.object {
                        let m = merged.object();
                        for (k, v) in &ob.properties {
                            m.properties.insert(k.clone(), v.clone());
                        }
                        m.required.extend(ob.required.iter().cloned());
                        if ob.additional_properties.is_some() {
                            m.additional_properties = ob.additional_properties.clone();
                        }
                    }
                }
                return self.convert_kind(hint, required, &Schema::Object(merged));
            }
            if let Some(list) = subs.one_of.or(subs.any_of) {
                let is_null = |s: &Schema| match s {
                    Schema::Object(o) => {
                        o.instance_type == Some(SingleOrVec::from(InstanceType::Null))
                            || o.enum_values == Some(vec![Value::Null])
                    }
                    _ => false,
                };
                let non_null: Vec<Schema> = list.iter().filter(|s| !is_null(s)).cloned().collect();
                if non_null.len() < list.len() {
                    let inner = if non_null.len() == 1 {
                        non_null[0].clone()
                    } else {
                        let mut o = so.clone();
                        o.subschemas().one_of = Some(non_null);
                        o.subschemas().any_of = None;
                        Schema::Object(o)
                    };
                    let h = hint.map(|h| {
                        if required {
                            format!("{h}Inner")
                        } else {
                            h.to_string()
                        }
                    });
                    let id = self.id_for(h.as_deref(), &inner)?;
                    return Ok(self.option_of(id));
                }
                if non_null.len() == 1 {
                    return self.convert_kind(hint, required, &non_null[0]);
                }
                // A oneOf of string enumerations is one enumeration.
                let all_enum: Option<Vec<Value>> = non_null
                    .iter()
                    .map(|s| match s {
                        Schema::Object(o)
                            if o.instance_type == Some(InstanceType::String.into()) =>
                        {
                            o.enum_values.clone()
                        }
                        _ => None,
                    })
                    .collect::<Option<Vec<_>>>()
                    .map(|v| v.concat());
                if let Some(vals) = all_enum {
                    let o = SchemaObject {
                        metadata: so.metadata.clone(),
                        instance_type: Some(InstanceType::String.into()),
                        enum_values: Some(vals),
                        ..Default::default()
                    };
                    return self.convert_kind(hint, required, &Schema::Object(o));
                }
                let name = self.named(hint, required, so)?;
                let mut variants = Vec::new();
                for (i, s) in non_null.iter().enumerate() {
                    let vname = match s {
                        Schema::Object(o) => match (&o.reference, &o.metadata) {
                            (_, Some(m)) if m.title.is_some() => {
                                sanitize_type(m.title.as_ref().unwrap())
                            }
                            (Some(r), _) => sanitize_type(&ref_key(r)),
                            _ => format!("Variant{i}"),
                        },
                        _ => format!("Variant{i}"),
                    };
                    let vname = if variants.iter().any(|v: &Variant| v.name == vname) {
                        format!("Variant{i}")
                    } else {
                        vname
                    };
                    let id = self.id_for(Some(&format!("{name}{vname}")), s)?;
                    variants.push(Variant {
                        json: vname.clone(),
                        name: vname,
                        details: VariantDetails::Item(id),
                    });
                }
                return Ok(Kind::Enum {
                    name,
                    description: description(schema),
                    untagged: true,
                    variants,
                });
            }
            // `not` and the rest: anything.
            self.uses_serde_json = true;
            return Ok(Kind::JsonValue);
        }

        let t = match types.as_ref().and_then(|t| t.first()) {
            Some(t) => *t,
            None => {
                // Infer from keywords.
                if so.object.is_some() {
                    InstanceType::Object
                } else if so.array.is_some() {
                    InstanceType::Array
                } else if so.string.is_some()
                    || so
                        .enum_values
                        .as_ref()
                        .is_some_and(|v| !v.is_empty() && v.iter().all(Value::is_string))
                {
                    InstanceType::String
                } else if so.number.is_some() {
                    InstanceType::Number
                } else {
                    self.uses_serde_json = true;
                    return Ok(Kind::JsonValue);
                }
            }
        };

        match t {
            InstanceType::Null => Ok(Kind::Unit),
            InstanceType::Boolean => Ok(Kind::Boolean),
            InstanceType::Number => Ok(Kind::Number(
                match so.format.as_deref() {
                    Some("float") => "f32",
                    _ => "f64",
                }
                .to_string(),
            )),
            InstanceType::Integer => {
                let (min, max) = so
                    .number
                    .as_ref()
                    .map(|n| (n.minimum, n.maximum))
                    .unwrap_or((None, None));
                let _ = max;
                let n = match so.format.as_deref() {
                    Some("int8") => "i8",
                    Some("int16") => "i16",
                    Some("int32") => "i32",
                    Some("int64") => "i64",
                    Some("uint8") => "u8",
                    Some("uint16") => "u16",
                    Some("uint32") | Some("uint") => "u32",
                    Some("uint64") => "u64",
                    _ => "i64",
                };
                let n = match (n, min) {
                    (n, Some(m)) if m == 1.0 => match n {
                        "u8" | "i8" => "::std::num::NonZeroU8",
                        "u16" | "i16" => "::std::num::NonZeroU16",
                        "u32" | "i32" => "::std::num::NonZeroU32",
                        _ => "::std::num::NonZeroU64",
                    },
                    ("i64", Some(m)) if m == 0.0 => "u64",
                    ("i32", Some(m)) if m == 0.0 => "u32",
                    (n, _) => n,
                };
                Ok(Kind::Number(n.to_string()))
            }
            InstanceType::String => self.convert_string(hint, required, so, schema),
            InstanceType::Array => {
                let a = so.array.clone().unwrap_or_default();
                let item = match &a.items {
                    Some(SingleOrVec::Single(s)) => (**s).clone(),
                    Some(SingleOrVec::Vec(v)) => {
                        let mut ids = Vec::new();
                        for (i, s) in v.iter().enumerate() {
                            let h = hint.map(|h| format!("{h}Item{i}"));
                            ids.push(self.id_for(h.as_deref(), s)?);
                        }
                        return Ok(Kind::Tuple(ids));
                    }
                    None => Schema::Bool(true),
                };
                let h = hint.map(|h| format!("{h}Item"));
                let id = self.id_for(h.as_deref(), &item)?;
                if a.unique_items == Some(true) {
                    return Ok(Kind::Vec(id));
                }
                match (a.min_items, a.max_items) {
                    (Some(x), Some(y)) if x == y && x <= 32 => Ok(Kind::Array(id, x as usize)),
                    _ => Ok(Kind::Vec(id)),
                }
            }
            InstanceType::Object => self.convert_object(hint, required, so, schema),
        }
    }

    fn convert_string(
        &mut self,
        hint: Option<&str>,
        required: bool,
        so: &SchemaObject,
        schema: &Schema,
    ) -> Result<Kind> {
        if let Some(vals) = &so.enum_values {
            let vals: Vec<String> = vals
                .iter()
                .filter_map(|v| v.as_str().map(str::to_string))
                .collect();
            let name = self.named(hint, required, so)?;
            let mut variants: Vec<Variant> = Vec::new();
            for v in vals {
                let mut n = sanitize_type(&v);
                while variants.iter().any(|x| x.name == n) {
                    n.push('X');
                }
                variants.push(Variant {
                    name: n,
                    json: v,
                    details: VariantDetails::Simple,
                });
            }
            return Ok(Kind::Enum {
                name,
                description: description(schema),
                untagged: false,
                variants,
            });
        }
        let native = |p: &str| Kind::Native {
            path: p.to_string(),
            impls: vec![TypeSpaceImpl::FromStr, TypeSpaceImpl::Display],
        };
        match so.format.as_deref() {
            Some("uuid") => {
                self.uses_uuid = true;
                return Ok(native("::uuid::Uuid"));
            }
            Some("date-time") => {
                self.uses_chrono = true;
                return Ok(native("::chrono::DateTime<::chrono::offset::Utc>"));
            }
            Some("date") => {
                self.uses_chrono = true;
                return Ok(native("::chrono::naive::NaiveDate"));
            }
            Some("ip") => return Ok(native("::std::net::IpAddr")),
            Some("ipv4") => return Ok(native("::std::net::Ipv4Addr")),
            Some("ipv6") => return Ok(native("::std::net::Ipv6Addr")),
            _ => {}
        }
        match &so.string {
            Some(v) if v.max_length.is_some() || v.min_length.is_some() || v.pattern.is_some() => {
                let name = self.named(hint, required, so)?;
                if v.pattern.is_some() {
                    self.uses_regress = true;
                }
                let inner = self.push(Kind::String);
                Ok(Kind::Newtype {
                    name,
                    description: description(schema),
                    inner,
                    min_length: v.min_length,
                    max_length: v.max_length,
                    pattern: v.pattern.clone(),
                    deny: None,
                })
            }
            _ => Ok(Kind::String),
        }
    }

    fn convert_object(
        &mut self,
        hint: Option<&str>,
        required: bool,
        so: &SchemaObject,
        schema: &Schema,
    ) -> Result<Kind> {
        let o = so.object.clone().unwrap_or_default();
        if o.properties.is_empty() {
            let ap = o
                .additional_properties
                .clone()
                .map(|b| *b)
                .unwrap_or(Schema::Bool(true));
            if ap != Schema::Bool(false) && o.required.is_empty() {
                let key = self.push(Kind::String);
                let h = hint.map(|h| format!("{h}Value"));
                let val = self.id_for(h.as_deref(), &ap)?;
                return Ok(if matches!(self.kind(&val), Kind::JsonValue) {
                    self.uses_serde_json = true;
                    Kind::Map(key, val)
                } else {
                    Kind::Map(key, val)
                });
            }
        }
        let name = self.named(hint, required, so)?;
        let mut props: Vec<Prop> = Vec::new();
        // A property that is required but not described can be anything.
        let any = Schema::Bool(true);
        let mut members: std::collections::BTreeMap<&String, &Schema> = o.properties.iter().collect();
        for r in &o.required {
            members.entry(r).or_insert(&any);
        }
        for (json, s) in members {
            let mut rust = sanitize_snake(json);
            while props.iter().any(|p| p.name == rust) {
                rust.push('_');
            }
            let req = o.required.contains(json);
            let id = self.id_for(Some(&format!("{name}{}", sanitize_type(json))), s)?;
            let (ty, state) = if req {
                match self.kind(&id) {
                    Kind::Option(_) => (id, PropState::Required),
                    _ => (id, PropState::Required),
                }
            } else {
                match self.kind(&id) {
                    Kind::Vec(_) | Kind::Map(..) | Kind::Option(_) | Kind::Unit => {
                        (id, PropState::Optional)
                    }
                    _ => {
                        let k = self.option_of(id);
                        (self.push(k), PropState::Optional)
                    }
                }
            };
            props.push(Prop {
                name: rust,
                json: json.clone(),
                description: match s {
                    Schema::Object(o) => o.metadata.as_ref().and_then(|m| m.description.clone()),
                    _ => None,
                },
                state,
                ty,
                flatten: false,
            });
        }
        if let Some(ap) = &o.additional_properties {
            if let Schema::Object(_) = &**ap {
                let key = self.push(Kind::String);
                let val = self.id_for(Some(&format!("{name}Extra")), ap)?;
                let ty = self.push(Kind::Map(key, val));
                props.push(Prop {
                    name: "extra".to_string(),
                    json: "extra".to_string(),
                    description: None,
                    state: PropState::Optional,
                    ty,
                    flatten: true,
                });
            }
        }
        Ok(Kind::Struct {
            name,
            description: description(schema),
            props,
        })
    }

    pub fn get_type(&self, id: &TypeId) -> Result<Type<'_>> {
        if (id.0 as usize) < self.types.len() {
            Ok(Type {
                space: self,
                id: id.clone(),
            })
        } else {
            Err(Error::InvalidTypeId)
        }
    }

    pub fn iter_types(&self) -> impl Iterator<Item = Type<'_>> {
        (0..self.types.len()).map(move |i| Type {
            space: self,
            id: TypeId(i as u64),
        })
    }

    pub fn to_stream(&self) -> TokenStream {
        let types = output::to_stream(self);
        if std::env::var_os("TYPIFY_EMBED_SETTINGS").is_some() {
            // what this type space was told, readable from the generated code
            let told = canon(&self.settings.told());
            return quote! { #types pub const TYPE_SPACE_SETTINGS: &str = #told; };
        }
        types
    }

    /// The settings this type space was created with.
    pub fn told(&self) -> Value {
        self.settings.told()
    }

    // --------------------------------------------------------------- queries

    pub(crate) fn ident_of(&self, id: &TypeId, type_mod: Option<&str>) -> TokenStream {
        let m = type_mod.map(|m| {
            let i = format_ident!("{}", m);
            quote! { #i :: }
        });
        match self.kind(id) {
            Kind::Struct { name, .. } | Kind::Enum { name, .. } | Kind::Newtype { name, .. } => {
                let n = format_ident!("{}", name);
                quote! { #m #n }
            }
            Kind::Native { path, .. } => parse_type(path),
            Kind::Number(n) => parse_type(n),
            Kind::Option(t) => {
                let i = self.ident_of(t, type_mod);
                quote! { ::std::option::Option<#i> }
            }
            Kind::Box(t) => {
                let i = self.ident_of(t, type_mod);
                quote! { ::std::boxed::Box<#i> }
            }
            Kind::Vec(t) | Kind::Set(t) => {
                let i = self.ident_of(t, type_mod);
                quote! { ::std::vec::Vec<#i> }
            }
            Kind::Array(t, n) => {
                let i = self.ident_of(t, type_mod);
                quote! { [#i; #n] }
            }
            Kind::Tuple(ts) => {
                let is = ts.iter().map(|t| self.ident_of(t, type_mod));
                quote! { (#(#is,)*) }
            }
            Kind::Map(k, v) => {
                let map = parse_type(
                    self.settings
                        .map_type
                        .as_deref()
                        .unwrap_or("::std::collections::HashMap"),
                );
                if matches!(self.kind(v), Kind::JsonValue) && self.settings.map_type.is_none() {
                    return quote! {
                        ::serde_json::Map<::std::string::String, ::serde_json::Value>
                    };
                }
                let k = self.ident_of(k, type_mod);
                let v = self.ident_of(v, type_mod);
                quote! { #map<#k, #v> }
            }
            Kind::Unit => quote! { () },
            Kind::Boolean => quote! { bool },
            Kind::String => quote! { ::std::string::String },
            Kind::JsonValue => quote! { ::serde_json::Value },
            Kind::Pending(n) => panic!("unresolved reference {n}"),
        }
    }

    pub(crate) fn has_impl_of(&self, id: &TypeId, i: TypeSpaceImpl) -> bool {
        self.has_impl_rec(id, i, &mut BTreeSet::new())
    }

    fn has_impl_rec(&self, id: &TypeId, i: TypeSpaceImpl, seen: &mut BTreeSet<u64>) -> bool {
        if !seen.insert(id.0) {
            return false;
        }
        match self.kind(id) {
            Kind::String => match i {
                TypeSpaceImpl::FromStr
                | TypeSpaceImpl::FromStringIrrefutable
                | TypeSpaceImpl::Display
                | TypeSpaceImpl::Default => true,
            },
            Kind::Boolean | Kind::Number(_) => {
                i == TypeSpaceImpl::FromStr || i == TypeSpaceImpl::Display
            }
            Kind::Native { impls, .. } => impls.contains(&i),
            Kind::Enum {
                untagged: false, ..
            } => i == TypeSpaceImpl::FromStr || i == TypeSpaceImpl::Display,
            Kind::Enum {
                untagged: true,
                variants,
                ..
            } => {
                (i == TypeSpaceImpl::FromStr || i == TypeSpaceImpl::Display)
                    && variants.iter().all(|v| match &v.details {
                        VariantDetails::Item(t) => self.has_impl_rec(t, i, seen),
                        _ => false,
                    })
            }
            Kind::Newtype {
                inner,
                min_length,
                max_length,
                pattern,
                ..
            } => {
                if min_length.is_some() || max_length.is_some() || pattern.is_some() {
                    i == TypeSpaceImpl::FromStr || i == TypeSpaceImpl::Display
                } else {
                    self.has_impl_rec(inner, i, seen)
                }
            }
            Kind::Box(t) => self.has_impl_rec(t, i, seen),
            _ => false,
        }
    }
}

fn set_name(k: &mut Kind, n: &str) {
    if let Kind::Struct { name, .. } | Kind::Enum { name, .. } | Kind::Newtype { name, .. } = k {
        *name = n.to_string();
    }
}

fn parse_type(s: &str) -> TokenStream {
    s.parse::<TokenStream>().unwrap()
}

fn description(s: &Schema) -> Option<String> {
    match s {
        Schema::Object(o) => o.metadata.as_ref().and_then(|m| m.description.clone()),
        _ => None,
    }
}

pub(crate) fn ref_key(r: &str) -> String {
    match r.rfind('/') {
        Some(i) => r[i + 1..].to_string(),
        None => r.to_string(),
    }
}

fn clean(s: &str, f: fn(&str) -> String) -> String {
    let s = match s {
        "+1" => "plus1".to_string(),
        "-1" => "minus1".to_string(),
        s => s
            .replace('\'', "")
            .replace(|c: char| !unicode_ident::is_xid_continue(c), "-"),
    };
    let out = f(&s);
    let out = match out.chars().next() {
        None => f("x"),
        Some(c) if unicode_ident::is_xid_start(c) => out,
        Some(_) => format!("_{out}"),
    };
    if syn::parse_str::<syn::Ident>(&out).is_ok() {
        out
    } else {
        format!("{out}_")
    }
}

pub(crate) fn sanitize_type(s: &str) -> String {
    clean(s, |s| s.to_pascal_case())
}
pub(crate) fn sanitize_snake(s: &str) -> String {
    clean(s, |s| s.to_snake_case())
}

// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Type<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}

pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeNewtype<'a>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId, TypeId),
    Set(TypeId),
    Box(TypeId),
    Tuple(Box<dyn Iterator<Item = TypeId> + 'a>),
    Array(TypeId, usize),
    Builtin(&'a str),
    Unit,
    String,
}

pub struct TypeEnum<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}
pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}
pub struct TypeEnumVariantInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub details: TypeEnumVariant<'a>,
}
pub struct TypeStruct<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}
pub struct TypeNewtype<'a> {
    space: &'a TypeSpace,
    id: TypeId,
}

impl<'a> TypeEnum<'a> {
    fn vs(&self) -> &'a [Variant] {
        match self.space.kind(&self.id) {
            Kind::Enum { variants, .. } => variants,
            _ => unreachable!(),
        }
    }
    pub fn variants(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        self.variants_info().map(|i| (i.name, i.details))
    }
    pub fn variants_info(&'a self) -> impl Iterator<Item = TypeEnumVariantInfo<'a>> {
        self.vs().iter().map(|v| TypeEnumVariantInfo {
            name: v.name.as_str(),
            description: None,
            details: match &v.details {
                VariantDetails::Simple => TypeEnumVariant::Simple,
                VariantDetails::Item(t) => TypeEnumVariant::Tuple(vec![t.clone()]),
            },
        })
    }
}

impl<'a> TypeStruct<'a> {
    fn ps(&self) -> &'a [Prop] {
        match self.space.kind(&self.id) {
            Kind::Struct { props, .. } => props,
            _ => unreachable!(),
        }
    }
    pub fn properties(&'a self) -> impl Iterator<Item = (&'a str, TypeId)> {
        self.ps().iter().map(|p| (p.name.as_str(), p.ty.clone()))
    }
    pub fn properties_info(&'a self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        self.ps().iter().map(|p| TypeStructPropInfo {
            name: p.name.as_str(),
            description: p.description.as_deref(),
            required: p.state == PropState::Required,
            type_id: p.ty.clone(),
        })
    }
}

impl<'a> TypeNewtype<'a> {
    pub fn inner(&self) -> TypeId {
        match self.space.kind(&self.id) {
            Kind::Newtype { inner, .. } => inner.clone(),
            _ => unreachable!(),
        }
    }
    pub fn subtype(&self) -> TypeId {
        self.inner()
    }
}

impl<'a> Type<'a> {
    pub fn name(&self) -> String {
        match self.space.kind(&self.id) {
            Kind::Struct { name, .. } | Kind::Enum { name, .. } | Kind::Newtype { name, .. } => {
                name.clone()
            }
            _ => self.space.ident_of(&self.id, None).to_string(),
        }
    }
    pub fn ident(&self) -> TokenStream {
        self.space
            .ident_of(&self.id, self.space.settings.type_mod.as_deref())
    }
    pub fn parameter_ident(&self) -> TokenStream {
        self.param(None, &self.id)
    }
    pub fn parameter_ident_with_lifetime(&self, lifetime: &str) -> TokenStream {
        self.param(Some(lifetime), &self.id)
    }
    fn param(&self, lt: Option<&str>, id: &TypeId) -> TokenStream {
        let tm = self.space.settings.type_mod.as_deref();
        let ident = self.space.ident_of(id, tm);
        let l = lt.map(|l| {
            syn::Lifetime::new(&format!("'{l}"), proc_macro2::Span::call_site()).to_token_stream()
        });
        match self.space.kind(id) {
            Kind::Enum {
                untagged: false, ..
            } => ident,
            Kind::Struct { .. } | Kind::Newtype { .. } | Kind::Enum { .. } => quote! { &#l #ident },
            Kind::Option(t) => {
                let i = self.param(lt, t);
                quote! { Option<#i> }
            }
            Kind::Box(t) => self.param(lt, t),
            Kind::String => quote! { &#l str },
            Kind::Boolean | Kind::Number(_) | Kind::Unit => ident,
            _ => quote! { &#l #ident },
        }
    }
    pub fn details(&self) -> TypeDetails<'_> {
        let (space, id) = (self.space, self.id.clone());
        match self.space.kind(&self.id) {
            Kind::Struct { .. } => TypeDetails::Struct(TypeStruct { space, id }),
            Kind::Enum { .. } => TypeDetails::Enum(TypeEnum { space, id }),
            Kind::Newtype { .. } => TypeDetails::Newtype(TypeNewtype { space, id }),
            Kind::Native { path, .. } => TypeDetails::Builtin(path.as_str()),
            Kind::Option(t) => TypeDetails::Option(t.clone()),
            Kind::Box(t) => TypeDetails::Box(t.clone()),
            Kind::Vec(t) => TypeDetails::Vec(t.clone()),
            Kind::Set(t) => TypeDetails::Set(t.clone()),
            Kind::Map(k, v) => TypeDetails::Map(k.clone(), v.clone()),
            Kind::Array(t, n) => TypeDetails::Array(t.clone(), *n),
            Kind::Tuple(ts) => TypeDetails::Tuple(Box::new(ts.iter().cloned())),
            Kind::Unit => TypeDetails::Unit,
            Kind::Boolean => TypeDetails::Builtin("bool"),
            Kind::Number(n) => TypeDetails::Builtin(n.as_str()),
            Kind::String => TypeDetails::String,
            Kind::JsonValue => TypeDetails::Builtin("::serde_json::Value"),
            Kind::Pending(_) => unreachable!(),
        }
    }
    pub fn has_impl(&self, i: TypeSpaceImpl) -> bool {
        self.space.has_impl_of(&self.id, i)
    }
    pub fn builder(&self) -> Option<TokenStream> {
        if !self.space.settings.struct_builder {
            return None;
        }
        match self.space.kind(&self.id) {
            Kind::Struct { name, .. } => {
                let n = format_ident!("{}", name);
                match &self.space.settings.type_mod {
                    Some(m) => {
                        let m = format_ident!("{}", m);
                        Some(quote! { #m::builder::#n })
                    }
                    None => Some(quote! { builder::#n }),
                }
            }
            _ => None,
        }
    }
    pub fn describe(&self) -> String {
        self.name()
    }
}
