//! Rendering of the type space as Rust code.

use crate::{Kind, Prop, PropState, TypeId, TypeSpace, TypeSpaceImpl, Variant, VariantDetails};
use proc_macro2::TokenStream;
use quote::{format_ident, quote};

pub(crate) fn to_stream(s: &TypeSpace) -> TokenStream {
    let mut named: Vec<(String, usize)> = s
        .types
        .iter()
        .enumerate()
        .filter_map(|(i, k)| match k {
            Kind::Struct { name, .. } | Kind::Enum { name, .. } | Kind::Newtype { name, .. } => {
                Some((name.clone(), i))
            }
            _ => None,
        })
        .collect();
    named.sort();
    named.dedup_by(|a, b| a.0 == b.0);

    let mut items = Vec::new();
    let mut builders = Vec::new();
    for (_, i) in &named {
        match &s.types[*i] {
            Kind::Struct {
                name,
                description,
                props,
            } => {
                items.push(structure(s, name, description, props));
                if s.settings.struct_builder {
                    builders.push(builder(s, name, props));
                }
            }
            Kind::Enum {
                name,
                description,
                untagged,
                variants,
            } => items.push(enumeration(
                s,
                &TypeId(*i as u64),
                name,
                description,
                *untagged,
                variants,
            )),
            k @ Kind::Newtype { .. } => items.push(newtype(s, k)),
            _ => unreachable!(),
        }
    }

    let builder_mod = s.settings.struct_builder.then(|| {
        quote! {
            /// Types for composing complex structures.
            pub mod builder {
                #(#builders)*
            }
        }
    });

    quote! {
        /// Error types.
        pub mod error {
            /// Error from a TryFrom or FromStr implementation.
            pub struct ConversionError(::std::borrow::Cow<'static, str>);
            impl ::std::error::Error for ConversionError {}
            impl ::std::fmt::Display for ConversionError {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>)
                    -> Result<(), ::std::fmt::Error>
                {
                    ::std::fmt::Display::fmt(&self.0, f)
                }
            }
            impl ::std::fmt::Debug for ConversionError {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>)
                    -> Result<(), ::std::fmt::Error>
                {
                    ::std::fmt::Debug::fmt(&self.0, f)
                }
            }
            impl From<&'static str> for ConversionError {
                fn from(value: &'static str) -> Self {
                    Self(value.into())
                }
            }
            impl From<String> for ConversionError {
                fn from(value: String) -> Self {
                    Self(value.into())
                }
            }
        }
        #(#items)*
        #builder_mod
    }
}

fn derives(s: &TypeSpace, name: &str, base: &[&str]) -> TokenStream {
    let mut ds: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    ds.extend(s.settings.extra_derives.iter().cloned());
    if let Some(p) = s.settings.patch.get(name) {
        ds.extend(p.derives.iter().cloned());
    }
    ds.sort_by_key(|d| d.replace(' ', ""));
    ds.dedup_by_key(|d| d.replace(' ', ""));
    let ds = ds.iter().map(|d| d.parse::<TokenStream>().unwrap());
    quote! { #[derive(#(#ds),*)] }
}

fn doc(name: &str, d: &Option<String>) -> TokenStream {
    let text = d.clone().unwrap_or_else(|| format!("`{name}`"));
    quote! { #[doc = #text] }
}

fn structure(
    s: &TypeSpace,
    name: &str,
    description: &Option<String>,
    props: &[Prop],
) -> TokenStream {
    let ident = format_ident!("{}", name);
    let derive = derives(
        s,
        name,
        &[
            "::serde::Deserialize",
            "::serde::Serialize",
            "Clone",
            "Debug",
        ],
    );
    let doc = doc(name, description);
    let fields = props.iter().map(|p| {
        let n = format_ident!("{}", p.name);
        let t = s.ident_of(&p.ty, None);
        let json = &p.json;
        let rename = (p.json != p.name && !p.flatten).then(|| quote! { #[serde(rename = #json)] });
        let serde = if p.flatten {
            quote! { #[serde(flatten)] }
        } else {
            match (&p.state, s.kind(&p.ty)) {
                (PropState::Required, _) => quote! {},
                (PropState::Optional, Kind::Vec(_)) => quote! {
                    #[serde(default, skip_serializing_if = "::std::vec::Vec::is_empty")]
                },
                (PropState::Optional, Kind::Map(_, v)) => {
                    let path = if matches!(s.kind(v), Kind::JsonValue)
                        && s.settings.map_type.is_none()
                    {
                        "::serde_json::Map::is_empty".to_string()
                    } else {
                        format!(
                            "{}::is_empty",
                            s.settings
                                .map_type
                                .as_deref()
                                .unwrap_or("::std::collections::HashMap")
                        )
                    };
                    quote! { #[serde(default, skip_serializing_if = #path)] }
                }
                (PropState::Optional, _) => quote! {
                    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
                },
            }
        };
        let d = p.description.as_ref().map(|d| quote! { #[doc = #d] });
        quote! { #d #rename #serde pub #n: #t, }
    });
    let build = s.settings.struct_builder.then(|| {
        quote! {
            impl #ident {
                pub fn builder() -> builder::#ident { Default::default() }
            }
        }
    });
    let default = props
        .iter()
        .all(|p| p.state == PropState::Optional)
        .then(|| {
            let ns = props.iter().map(|p| format_ident!("{}", p.name));
            quote! {
                impl ::std::default::Default for #ident {
                    fn default() -> Self {
                        Self { #(#ns: Default::default(),)* }
                    }
                }
            }
        });
    quote! {
        #doc
        #derive
        pub struct #ident { #(#fields)* }
        impl ::std::convert::From<&#ident> for #ident {
            fn from(value: &#ident) -> Self { value.clone() }
        }
        #default
        #build
    }
}

fn builder(s: &TypeSpace, name: &str, props: &[Prop]) -> TokenStream {
    let ident = format_ident!("{}", name);
    let names: Vec<_> = props.iter().map(|p| format_ident!("{}", p.name)).collect();
    let types: Vec<_> = props
        .iter()
        .map(|p| s.ident_of(&p.ty, Some("super")))
        .collect();
    let defaults = props.iter().map(|p| match p.state {
        PropState::Optional => quote! { Ok(Default::default()) },
        PropState::Required => {
            let msg = format!("no value supplied for {}", p.name);
            quote! { Err(#msg.to_string()) }
        }
    });
    let setters = props.iter().zip(&types).map(|(p, t)| {
        let n = format_ident!("{}", p.name);
        let msg = format!("error converting supplied value for {}: {{}}", p.name);
        quote! {
            pub fn #n<T>(mut self, value: T) -> Self
            where
                T: ::std::convert::TryInto<#t>,
                T::Error: ::std::fmt::Display,
            {
                self.#n = value.try_into().map_err(|e| format!(#msg, e));
                self
            }
        }
    });
    quote! {
        #[derive(Clone, Debug)]
        pub struct #ident {
            #(#names: ::std::result::Result<#types, ::std::string::String>,)*
        }
        impl ::std::default::Default for #ident {
            fn default() -> Self {
                Self { #(#names: #defaults,)* }
            }
        }
        impl #ident { #(#setters)* }
        impl ::std::convert::TryFrom<#ident> for super::#ident {
            type Error = super::error::ConversionError;
            #[allow(unused_variables)]
            fn try_from(value: #ident)
                -> ::std::result::Result<Self, super::error::ConversionError>
            {
                Ok(Self { #(#names: value.#names?,)* })
            }
        }
        impl ::std::convert::From<super::#ident> for #ident {
            #[allow(unused_variables)]
            fn from(value: super::#ident) -> Self {
                Self { #(#names: Ok(value.#names),)* }
            }
        }
    }
}

fn string_conversions(ident: &proc_macro2::Ident) -> TokenStream {
    quote! {
        impl ::std::convert::TryFrom<&str> for #ident {
            type Error = self::error::ConversionError;
            fn try_from(value: &str)
                -> ::std::result::Result<Self, self::error::ConversionError>
            { value.parse() }
        }
        impl ::std::convert::TryFrom<&::std::string::String> for #ident {
            type Error = self::error::ConversionError;
            fn try_from(value: &::std::string::String)
                -> ::std::result::Result<Self, self::error::ConversionError>
            { value.parse() }
        }
        impl ::std::convert::TryFrom<::std::string::String> for #ident {
            type Error = self::error::ConversionError;
            fn try_from(value: ::std::string::String)
                -> ::std::result::Result<Self, self::error::ConversionError>
            { value.parse() }
        }
    }
}

fn enumeration(
    s: &TypeSpace,
    id: &TypeId,
    name: &str,
    description: &Option<String>,
    untagged: bool,
    variants: &[Variant],
) -> TokenStream {
    let ident = format_ident!("{}", name);
    let doc = doc(name, description);
    if !untagged {
        let derive = derives(
            s,
            name,
            &[
                "::serde::Deserialize",
                "::serde::Serialize",
                "Clone",
                "Copy",
                "Debug",
                "Eq",
                "Hash",
                "Ord",
                "PartialEq",
                "PartialOrd",
            ],
        );
        let vs: Vec<_> = variants.iter().map(|v| format_ident!("{}", v.name)).collect();
        let js: Vec<_> = variants.iter().map(|v| &v.json).collect();
        let conv = string_conversions(&ident);
        return quote! {
            #doc
            #derive
            pub enum #ident { #(#[serde(rename = #js)] #vs,)* }
            impl ::std::convert::From<&Self> for #ident {
                fn from(value: &#ident) -> Self { value.clone() }
            }
            impl ::std::fmt::Display for #ident {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    match *self { #(Self::#vs => f.write_str(#js),)* }
                }
            }
            impl ::std::str::FromStr for #ident {
                type Err = self::error::ConversionError;
                fn from_str(value: &str)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    match value {
                        #(#js => Ok(Self::#vs),)*
                        _ => Err("invalid value".into()),
                    }
                }
            }
            #conv
        };
    }
    let derive = derives(
        s,
        name,
        &[
            "::serde::Deserialize",
            "::serde::Serialize",
            "Clone",
            "Debug",
        ],
    );
    let vs: Vec<_> = variants.iter().map(|v| format_ident!("{}", v.name)).collect();
    let ids: Vec<_> = variants
        .iter()
        .map(|v| match &v.details {
            VariantDetails::Item(t) => t.clone(),
            VariantDetails::Simple => unreachable!(),
        })
        .collect();
    let ts: Vec<_> = ids.iter().map(|t| s.ident_of(t, None)).collect();
    let display = s.has_impl_of(id, TypeSpaceImpl::Display).then(|| {
        quote! {
            impl ::std::fmt::Display for #ident {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    match self { #(Self::#vs(x) => x.fmt(f),)* }
                }
            }
        }
    });
    let from_str = s.has_impl_of(id, TypeSpaceImpl::FromStr).then(|| {
        let conv = string_conversions(&ident);
        quote! {
            impl ::std::str::FromStr for #ident {
                type Err = self::error::ConversionError;
                fn from_str(value: &str)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    #(
                    if let Ok(v) = value.parse() {
                        return Ok(Self::#vs(v));
                    }
                    )*
                    Err("string conversion failed for all variants".into())
                }
            }
            #conv
        }
    });
    let froms = ids.iter().enumerate().filter_map(|(i, t)| {
        (ids.iter().filter(|x| *x == t).count() == 1
            && !matches!(s.kind(t), Kind::String))
        .then(|| {
            let v = &vs[i];
            let t = &ts[i];
            quote! {
                impl ::std::convert::From<#t> for #ident {
                    fn from(value: #t) -> Self { Self::#v(value) }
                }
            }
        })
    });
    quote! {
        #doc
        #derive
        #[serde(untagged)]
        pub enum #ident { #(#vs(#ts),)* }
        impl ::std::convert::From<&Self> for #ident {
            fn from(value: &#ident) -> Self { value.clone() }
        }
        #display
        #from_str
        #(#froms)*
    }
}

fn newtype(s: &TypeSpace, k: &Kind) -> TokenStream {
    let Kind::Newtype {
        name,
        description,
        inner,
        min_length,
        max_length,
        pattern,
        ..
    } = k
    else {
        unreachable!()
    };
    let ident = format_ident!("{}", name);
    let doc = doc(name, description);
    let t = s.ident_of(inner, None);
    let common = quote! {
        impl ::std::ops::Deref for #ident {
            type Target = #t;
            fn deref(&self) -> &#t { &self.0 }
        }
        impl ::std::convert::From<#ident> for #t {
            fn from(value: #ident) -> Self { value.0 }
        }
        impl ::std::convert::From<&#ident> for #ident {
            fn from(value: &#ident) -> Self { value.clone() }
        }
    };
    if min_length.is_some() || max_length.is_some() || pattern.is_some() {
        let derive = derives(
            s,
            name,
            &["::serde::Serialize", "Clone", "Debug"],
        );
        let min = min_length.map(|m| {
            let m = m as usize;
            let msg = format!("shorter than {m} characters");
            quote! { if value.chars().count() < #m { return Err(#msg.into()); } }
        });
        let max = max_length.map(|m| {
            let m = m as usize;
            let msg = format!("longer than {m} characters");
            quote! { if value.chars().count() > #m { return Err(#msg.into()); } }
        });
        let pat = pattern.as_ref().map(|p| {
            let msg = format!("doesn't match pattern \"{p}\"");
            quote! {
                if ::regress::Regex::new(#p).unwrap().find(value).is_none() {
                    return Err(#msg.into());
                }
            }
        });
        let conv = string_conversions(&ident);
        return quote! {
            #doc
            #derive
            #[serde(transparent)]
            pub struct #ident(#t);
            #common
            impl ::std::fmt::Display for #ident {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    ::std::fmt::Display::fmt(&self.0, f)
                }
            }
            impl ::std::str::FromStr for #ident {
                type Err = self::error::ConversionError;
                fn from_str(value: &str)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    #max
                    #min
                    #pat
                    Ok(Self(value.to_string()))
                }
            }
            #conv
            impl<'de> ::serde::Deserialize<'de> for #ident {
                fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
                where
                    D: ::serde::Deserializer<'de>,
                {
                    ::std::string::String::deserialize(deserializer)?
                        .parse()
                        .map_err(|e: self::error::ConversionError| {
                            <D::Error as ::serde::de::Error>::custom(e.to_string())
                        })
                }
            }
        };
    }
    let derive = derives(
        s,
        name,
        &[
            "::serde::Deserialize",
            "::serde::Serialize",
            "Clone",
            "Debug",
        ],
    );
    let str_impls = if matches!(s.kind(inner), Kind::String) {
        quote! {
            impl ::std::str::FromStr for #ident {
                type Err = ::std::convert::Infallible;
                fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> {
                    Ok(Self(value.to_string()))
                }
            }
        }
    } else if s.has_impl_of(inner, TypeSpaceImpl::FromStr) {
        quote! {
            impl ::std::str::FromStr for #ident {
                type Err = <#t as ::std::str::FromStr>::Err;
                fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> {
                    Ok(Self(value.parse()?))
                }
            }
            impl ::std::convert::TryFrom<&str> for #ident {
                type Error = <#t as ::std::str::FromStr>::Err;
                fn try_from(value: &str) -> ::std::result::Result<Self, Self::Error> {
                    value.parse()
                }
            }
            impl ::std::convert::TryFrom<String> for #ident {
                type Error = <#t as ::std::str::FromStr>::Err;
                fn try_from(value: String) -> ::std::result::Result<Self, Self::Error> {
                    value.parse()
                }
            }
        }
    } else {
        quote! {}
    };
    let display = s.has_impl_of(inner, TypeSpaceImpl::Display).then(|| {
        quote! {
            impl ::std::fmt::Display for #ident {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        }
    });
    quote! {
        #doc
        #derive
        #[serde(transparent)]
        pub struct #ident(pub #t);
        #common
        impl ::std::convert::From<#t> for #ident {
            fn from(value: #t) -> Self { Self(value) }
        }
        #str_impls
        #display
    }
}
