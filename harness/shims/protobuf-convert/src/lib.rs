//! Stand-in for the `protobuf-convert` derive (not available offline).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, LitStr, Path};

fn attr(attrs: &[syn::Attribute]) -> (Option<Path>, bool) {
    let (mut src, mut skip) = (None, false);
    for a in attrs.iter().filter(|a| a.path().is_ident("protobuf_convert")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("skip") {
                skip = true;
            } else if m.path.is_ident("source") {
                let s: LitStr = m.value()?.parse()?;
                src = Some(s.parse()?);
            } else if m.input.peek(syn::Token![=]) {
                let _: LitStr = m.value()?.parse()?;
            }
            Ok(())
        })
        .unwrap();
    }
    (src, skip)
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).unwrap();
    let name = &d.ident;
    let source = attr(&d.attrs).0.expect("source attribute");
    let out = match &d.data {
        Data::Struct(s) => {
            let mut set = vec![];
            let mut get = vec![];
            if let Fields::Named(fs) = &s.fields {
                for f in &fs.named {
                    let id = f.ident.as_ref().unwrap();
                    if attr(&f.attrs).1 {
                        get.push(quote!(#id: Default::default()));
                        continue;
                    }
                    let (setter, getter) = (format_ident!("set_{}", id), format_ident!("get_{}", id));
                    set.push(quote!(msg.#setter(ProtobufConvert::to_pb(&self.#id).into());));
                    get.push(quote!(#id: ProtobufConvert::from_pb(pb.#getter().to_owned())?));
                }
            }
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #source;
                    #[allow(unused_mut)]
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::default();
                        #(#set)*
                        msg
                    }
                    #[allow(unused_variables)]
                    fn from_pb(pb: Self::ProtoStruct) -> ::std::result::Result<Self, ::anyhow::Error> {
                        Ok(Self { #(#get,)* })
                    }
                }
            }
        }
        Data::Enum(e) => {
            let mut oneof = source.clone();
            let last = oneof.segments.last_mut().unwrap();
            last.ident = format_ident!("{}_oneof_kind", last.ident);
            let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let msg = format!("Failed to decode {name} from protobuf");
            quote! {
                impl ProtobufConvert for #name {
                    type ProtoStruct = #source;
                    fn to_pb(&self) -> Self::ProtoStruct {
                        let mut msg = Self::ProtoStruct::default();
                        msg.kind = Some(match self {
                            #(#name::#vs(value) => #oneof::#vs(ProtobufConvert::to_pb(value).into()),)*
                        });
                        msg
                    }
                    fn from_pb(pb: Self::ProtoStruct) -> ::std::result::Result<Self, ::anyhow::Error> {
                        match pb.kind {
                            #(Some(#oneof::#vs(value)) => Ok(#name::#vs(ProtobufConvert::from_pb(value)?)),)*
                            #[allow(unreachable_patterns)]
                            _ => Err(::anyhow::format_err!(#msg)),
                        }
                    }
                }
            }
        }
        _ => unimplemented!(),
    };
    out.into()
}
