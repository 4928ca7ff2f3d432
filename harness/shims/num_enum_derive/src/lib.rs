use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput};

fn repr(d: &DeriveInput) -> syn::Ident {
    d.attrs.iter().find(|a| a.path().is_ident("repr")).expect("repr").parse_args().unwrap()
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let (n, r) = (&d.ident, repr(&d));
    quote!(impl From<#n> for #r { fn from(x: #n) -> #r { x as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from(i: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(i).unwrap();
    let (n, r) = (&d.ident, repr(&d));
    let s = n.to_string();
    let Data::Enum(e) = &d.data else { panic!() };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        impl ::num_enum::TryFromPrimitive for #n {
            type Primitive = #r;
            const NAME: &'static str = #s;
            fn try_from_primitive(number: #r) -> Result<Self, ::num_enum::TryFromPrimitiveError<Self>> {
                #(if number == #n::#vs as #r { return Ok(#n::#vs); })*
                Err(::num_enum::TryFromPrimitiveError { number })
            }
        }
        impl ::core::convert::TryFrom<#r> for #n {
            type Error = ::num_enum::TryFromPrimitiveError<Self>;
            fn try_from(number: #r) -> Result<Self, Self::Error> {
                ::num_enum::TryFromPrimitive::try_from_primitive(number)
            }
        }
    }
    .into()
}
