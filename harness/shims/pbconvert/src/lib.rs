//! Registers the protobuf_convert attribute, and derives nothing.
use proc_macro::TokenStream;

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
