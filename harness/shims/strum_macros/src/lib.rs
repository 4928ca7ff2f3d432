//! Stand-in for `strum_macros` (not available offline): unit-only enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput};

fn variants(d: &DeriveInput) -> Vec<(syn::Ident, String)> {
    let Data::Enum(e) = &d.data else { panic!() };
    let snake = d.attrs.iter().any(|a| a.path().is_ident("strum") && quote!(#a).to_string().contains("snake_case"));
    let name = |i: &syn::Ident| {
        let s = i.to_string();
        if !snake {
            return s;
        }
        let mut o = String::new();
        for (k, c) in s.chars().enumerate() {
            if c.is_uppercase() && k > 0 {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        }
        o
    };
    e.variants.iter().map(|v| (v.ident.clone(), name(&v.ident))).collect()
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (v, s): (Vec<_>, Vec<_>) = variants(&d).into_iter().unzip();
    quote!(impl ::core::fmt::Display for #n { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.pad(match self { #(#n::#v => #s,)* }) } }).into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (v, s): (Vec<_>, Vec<_>) = variants(&d).into_iter().unzip();
    quote! {
        impl ::core::str::FromStr for #n { type Err = ::strum::ParseError; fn from_str(x: &str) -> Result<Self, Self::Err> { match x { #(#s => Ok(#n::#v),)* _ => Err(::strum::ParseError::VariantNotFound) } } }
        impl ::core::convert::TryFrom<&str> for #n { type Error = ::strum::ParseError; fn try_from(x: &str) -> Result<Self, Self::Error> { ::core::str::FromStr::from_str(x) } }
    }
    .into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (v, _): (Vec<_>, Vec<_>) = variants(&d).into_iter().unzip();
    quote!(impl ::strum::IntoEnumIterator for #n { type Iterator = ::std::vec::IntoIter<#n>; fn iter() -> Self::Iterator { vec![#(#n::#v),*].into_iter() } }).into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let n = &d.ident;
    let (v, s): (Vec<_>, Vec<_>) = variants(&d).into_iter().unzip();
    quote! {
        impl From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #(#n::#v => #s,)* } } }
        impl From<&#n> for &'static str { fn from(x: &#n) -> &'static str { match x { #(#n::#v => #s,)* } } }
    }
    .into()
}
